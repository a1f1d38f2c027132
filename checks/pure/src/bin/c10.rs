//! C10: the error report against a model, over any nesting of items, errors, collections and unwinding.
use arc_anyhow::Context;
use error_report::{anyhow, Category, ErrorList, ErrorReport, ErrorReporting, FatalErrors, ItemName, ItemScope, ReportFatalError, SourceLanguage};
use errors::Errors;
use simkit::{ev, node, tree, Caught, Check, Node, Rng};
use std::collections::BTreeMap;
use std::rc::Rc;

/// What the report must hold per item: (errors as (fmt, full), category bits, name).
type Model = BTreeMap<u64, (Vec<(String, String)>, u32, String)>;

struct Ctx {
    report: Option<Rc<ErrorReport>>,
    rep: Rc<dyn ErrorReporting>,
    fatal: Rc<FatalErrors>,
}

struct M {
    map: Model,
    /// The items entered, innermost last.
    stack: Vec<u64>,
    fatal: Vec<String>,
    names: BTreeMap<u64, String>,
}

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Done,
    /// Early return with an error.
    Left,
    Panic(String),
}

fn item(n: &Node) -> ItemName {
    let id = 1 + n.ix(0, 40) as u64;
    let name = if n.a(1) != 0 { format!("other::n{id}") } else { format!("ns::n{id}") };
    ItemName {
        name: Rc::from(name),
        id,
        unique_name: (id % 2 == 0).then(|| Rc::from(format!("usr{id}"))),
        defining_target: (id % 3 == 0).then(|| Rc::from(format!("//t:{id}"))),
    }
}

const CATS: [Category; 4] = [Category::Function, Category::Type, Category::Unsafe, Category::Alias];

/// Makes an error of the shape `n` and lists what must be reported for it.
fn error(n: &Node, out: &mut Vec<(String, String)>, parts: &mut Vec<String>) -> arc_anyhow::Error {
    let x = n.a(1);
    let mut e = match n.ix(0, 7) {
        0 => {
            out.push(("value {}".into(), format!("value {x}")));
            parts.push(format!("value {x}"));
            anyhow!("value {}", x)
        }
        1 => {
            out.push(("no parameters".into(), "".into()));
            parts.push("no parameters".into());
            anyhow!("no parameters")
        }
        2 => {
            let s = format!("dynamic {}", x % 4);
            out.push((s.clone(), "".into()));
            parts.push(s.clone());
            anyhow!(s)
        }
        3 => {
            // Compiler-internal numbers are left out of the report.
            let s = format!("DefId({}:{} ~ krate[{:04x}]::f{})", x.rem_euclid(9), x.rem_euclid(77), x.rem_euclid(65536), x.rem_euclid(3));
            out.push(("in {}".into(), format!("in DefId(krate::f{})", x.rem_euclid(3))));
            parts.push(format!("in {s}"));
            anyhow!("in {}", s)
        }
        4 => {
            let s = format!("foreign {x}");
            out.push(("{}".into(), s.clone()));
            parts.push(s.clone());
            // Context is only added to crubit's own errors here: for others it replaces the text.
            return anyhow::Error::msg(s).into();
        }
        _ => {
            let list: Vec<_> = n.kids.iter().filter(|k| k.op == "x").map(|k| error(k, out, parts)).collect();
            if list.is_empty() {
                simkit::probe("empty-list");
            } else {
                simkit::probe("error-list");
            }
            arc_anyhow::Error::from(anyhow::Error::from(ErrorList::from(list)))
        }
    };
    for k in 0..n.ix(2, 5) {
        e = match n.a(3).rem_euclid(3) {
            0 => e.context(format!("while {k}")),
            1 => Context::context(Err::<(), _>(e), format!("while {k}")).unwrap_err(),
            _ => Context::with_context(Err::<(), _>(e), || format!("while {k}")).unwrap_err(),
        };
        simkit::probe("context");
    }
    e
}

fn add(m: &mut M, errs: Vec<(String, String)>) {
    if errs.is_empty() {
        return;
    }
    let id = m.stack.last().copied().unwrap_or(0);
    m.map.entry(id).or_default().0.extend(errs);
}

/// Runs the operations; the model is advanced as they happen. A panic unwinds through real code.
fn exec(ops: &[Node], c: &Ctx, m: &mut M, uid: u64) -> Result<(), ()> {
    for op in ops {
        simkit::step();
        match op.op.as_str() {
            "report" => {
                let mut out = vec![];
                let e = error(op, &mut out, &mut vec![]);
                if op.a(4) & 1 == 1 {
                    // Reporting borrows the error; a clone is the same error.
                    c.rep.report(&e.clone());
                } else {
                    c.rep.report(&e);
                }
                add(m, out);
            }
            "cat" => {
                let k = CATS[op.ix(0, 4)];
                c.rep.add_category(k);
                let id = m.stack.last().copied().unwrap_or(0);
                m.map.entry(id).or_default().1 |= k as u32;
            }
            "item" => {
                let mut it = item(op);
                it.id += uid;
                if m.names.get(&it.id).is_some_and(|n| *n != *it.name) && c.report.is_some() {
                    // Two items with the same id are refused, and that leaves no trace.
                    let got = simkit::catch(|| ItemScope::new(&*c.rep, it.clone()));
                    let ok = matches!(&got, Err(Caught::Other(s)) if s.contains("same unique ID"));
                    std::mem::forget(got);
                    simkit::check!(ok, "mixed-up-items", "item {} entered under another name", it.id);
                    simkit::probe("same-id");
                    continue;
                }
                m.names.insert(it.id, it.name.to_string());
                m.map.entry(it.id).or_default().2 = it.name.to_string();
                let depth = m.stack.len();
                let r = {
                    let _scope = ItemScope::new(&*c.rep, it.clone());
                    m.stack.push(it.id);
                    struct Back<'a>(&'a Ctx, ItemName);
                    impl Drop for Back<'_> {
                        fn drop(&mut self) {
                            // Still inside the item, however it is left.
                            if !std::thread::panicking() {
                                self.0.rep.assert_in_item(self.1.clone());
                            }
                        }
                    }
                    let _b = Back(c, it.clone());
                    exec(&op.kids, c, m, uid)
                };
                m.stack.truncate(depth);
                if r.is_err() {
                    simkit::probe("left-early");
                    if op.a(2) & 1 == 0 {
                        return r;
                    }
                }
            }
            "in" => {
                // assert_in_item accepts the current item and nothing else.
                if c.report.is_none() {
                    continue;
                }
                let mut it = item(op);
                it.id += uid;
                let want = m.stack.last() == Some(&it.id) && m.names.get(&it.id).is_some_and(|n| *n == *it.name);
                let got = simkit::catch(|| c.rep.assert_in_item(it)).is_ok();
                simkit::check!(got == want, "wrong-item", "assert_in_item: {got}, expected {want}");
            }
            "fatal" => {
                let s = format!("fatal {}", op.a(0));
                c.fatal.report(&s);
                m.fatal.push(s);
            }
            "errors" => {
                let mut out = vec![];
                let mut parts = vec![];
                let depth = m.stack.len();
                let mut left = Ok(());
                let got = simkit::catch(|| {
                    let errs = Errors::new();
                    let _ = errs.is_empty();
                    for k in &op.kids {
                        match k.op.as_str() {
                            "x" => errs.add(error(k, &mut out, &mut parts)),
                            "ok" => simkit::check!(errs.consume_error(Ok::<_, arc_anyhow::Error>(5)) == Some(5), "wrong-result", "consume_error lost a value"),
                            "err" => {
                                let e = error(k, &mut out, &mut parts);
                                simkit::check!(errs.consume_error(Err::<i32, _>(e)).is_none(), "wrong-result", "consume_error invented a value");
                            }
                            "throw" => simkit::inject_panic(k.a(0) as u64),
                            "leave" => {
                                errs.discard();
                                out.clear();
                                left = Err(());
                                return;
                            }
                            _ => {
                                left = exec(std::slice::from_ref(k), c, m, uid);
                                if left.is_err() {
                                    errs.discard();
                                    out.clear();
                                    return;
                                }
                            }
                        }
                        // Empty lists count as errors too: only the number of entries matters.
                    }
                    let some = !errs.is_empty();
                    let n = op.kids.iter().filter(|k| k.op == "x" || k.op == "err").count();
                    simkit::check!(some == (n > 0), "lost-error", "{n} errors added, is_empty is {}", !some);
                    match op.ix(0, 5) {
                        0 => {
                            let r = errs.consolidate();
                            simkit::check!(r.is_err() == some, "lost-error", "consolidate: {r:?}, errors: {some}");
                            if let Err(l) = r {
                                c.rep.report(&arc_anyhow::Error::from(anyhow::Error::from(l)));
                                add(m, std::mem::take(&mut out));
                            }
                            simkit::check!(errs.is_empty() && errs.consolidate().is_ok(), "reported-twice", "consolidate kept the errors");
                            simkit::probe("consolidated");
                        }
                        1 => {
                            errs.discard();
                            out.clear();
                            simkit::check!(errs.is_empty(), "reported-twice", "discard kept the errors");
                        }
                        2 => {
                            let e = error(op, &mut out, &mut parts);
                            let Err(l) = errs.consolidate_on_err(Err::<(), _>(e)) else { simkit::fail("lost-error", "consolidate_on_err dropped an error"); return };
                            c.rep.report(&arc_anyhow::Error::from(anyhow::Error::from(l)));
                            add(m, std::mem::take(&mut out));
                            simkit::check!(errs.is_empty(), "reported-twice", "consolidate_on_err kept the errors");
                        }
                        3 => {
                            let r = errs.consolidate_on_err(Ok::<_, arc_anyhow::Error>(7));
                            simkit::check!(matches!(r, Ok(7)), "wrong-result", "consolidate_on_err lost a value");
                            simkit::check!(errs.is_empty() != some, "lost-error", "consolidate_on_err(Ok) changed the list");
                            let r = errs.consolidate();
                            if let Err(l) = r {
                                c.rep.report(&arc_anyhow::Error::from(anyhow::Error::from(l)));
                                add(m, std::mem::take(&mut out));
                            }
                        }
                        // Dropped as it is.
                        _ => simkit::probe("dropped-unreported"),
                    }
                });
                m.stack.truncate(depth);
                match got {
                    Ok(()) => simkit::check!(out.is_empty() || failed_kind(op) != 4, "lost-error", "collection dropped silently with {parts:?}"),
                    Err(Caught::Other(s)) if s.starts_with("`Error`s dropped") => {
                        simkit::check!(failed_kind(op) == 4, "false-loss", "errors had been dealt with, yet: {s}");
                        for p in &parts {
                            // The text of an error with context is its outermost context.
                            let hidden = op.kids.iter().any(has_context);
                            simkit::check!(hidden || s.contains(p.as_str()), "lost-error", "{p:?} is missing from {s:?}");
                        }
                        simkit::probe("loud-drop");
                    }
                    Err(Caught::Injected(k)) => {
                        simkit::probe("unwound-collection");
                        if op.a(4) & 1 == 0 {
                            simkit::inject_panic(k);
                        }
                    }
                    Err(Caught::Other(s)) => simkit::fail("unexpected-panic", &s),
                }
                if left.is_err() {
                    return Err(());
                }
            }
            "try" => {
                let depth = m.stack.len();
                let got = simkit::catch(|| exec(&op.kids, c, m, uid));
                m.stack.truncate(depth);
                match got {
                    Ok(_) => (),
                    Err(Caught::Injected(_)) => simkit::probe("unwound"),
                    Err(Caught::Other(s)) => simkit::fail("unexpected-panic", &s),
                }
            }
            "throw" => {
                simkit::inject_panic(op.a(0) as u64);
            }
            "leave" => return Err(()),
            _ => (),
        }
    }
    Ok(())
}
fn failed_kind(op: &Node) -> usize {
    op.ix(0, 5)
}
fn has_context(n: &Node) -> bool {
    (n.op == "x" || n.op == "err") && (n.ix(2, 5) > 0 || n.kids.iter().any(has_context))
}

fn whole(case: &Node, order: &[usize]) -> (Option<String>, Model, Vec<String>, Rc<FatalErrors>) {
    let (report, rep) = ErrorReport::new_rc_or_ignore(case.a(0) & 1 == 0, SourceLanguage::Cpp);
    let c = Ctx { report, rep, fatal: Rc::new(FatalErrors::new()) };
    let mut m = M { map: Default::default(), stack: vec![], fatal: vec![], names: Default::default() };
    for i in order {
        // Apart from the mode that tells the order apart, all siblings share their items.
        let uid = if case.a(1) & 1 == 1 { 100 * (1 + *i as u64) } else { 0 };
        let got = simkit::catch(|| exec(std::slice::from_ref(&case.kids[*i]), &c, &mut m, uid));
        if let Err(Caught::Other(s)) = got {
            simkit::fail("unexpected-panic", &s);
        }
        m.stack.clear();
    }
    let fatal = c.fatal.clone();
    (c.report.as_ref().map(|r| r.to_json_string()), m.map, m.fatal, fatal)
}

fn run(case: &Node) {
    if case.size() > 3 {
        simkit::nontrivial();
    }
    let order: Vec<usize> = (0..case.kids.len()).collect();
    let (json, model, fatal_model, fatal) = whole(case, &order);
    if let Some(json) = &json {
        let v: serde_json::Value = serde_json::from_str(json).unwrap_or_default();
        let entries = v.as_array().cloned().unwrap_or_default();
        let mut got: Vec<String> = vec![];
        for e in &entries {
            let mut errs: Vec<(String, String)> = vec![];
            for x in e["errors"].as_array().cloned().unwrap_or_default() {
                errs.push((x["fmt"].as_str().unwrap_or("").into(), x["full_error"].as_str().unwrap_or("").into()));
            }
            errs.sort();
            got.push(format!("{:?} {:?} cat={} {:?} {:?} {:?}", e["name"], errs, e["category"].as_u64().unwrap_or(0), e["unique_name"], e["defining_target"], e["source_language"]));
        }
        let mut want: Vec<String> = vec![];
        for (id, (errs, cat, name)) in &model {
            let mut errs = errs.clone();
            for x in &mut errs {
                if x.0 == x.1 {
                    x.1.clear();
                }
            }
            errs.sort();
            let base = id % 100;
            let s = |b: bool, t: String| if b { serde_json::Value::String(t) } else { serde_json::Value::Null };
            let un = s(*id != 0 && base % 2 == 0, format!("usr{base}"));
            let dt = s(*id != 0 && base % 3 == 0, format!("//t:{base}"));
            want.push(format!("{:?} {:?} cat={cat} {un:?} {dt:?} {:?}", serde_json::Value::String(name.clone()), errs, serde_json::Value::String("Cpp".into())));
        }
        got.sort();
        want.sort();
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let missing: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
        simkit::check!(got == want, "wrong-report", "report has {extra:?}, expected {missing:?} ({} entries, expected {})", got.len(), want.len());
        ev!("report with {} items", want.len());
        simkit::reached(simkit::hash_bytes(5, format!("{:?}", model.values().map(|v| (v.0.len(), v.1)).collect::<Vec<_>>()).as_bytes()));
    }
    // Fatal errors come out once, complete and in order; or their loss is loud.
    let loud = case.a(2) & 1 == 1;
    if loud {
        let unwinding = case.a(3) & 1 == 1;
        let got = simkit::catch(|| {
            let _f = Rc::try_unwrap(fatal).ok().expect("fatal errors are still shared");
            if unwinding {
                simkit::inject_panic(9);
            }
        });
        let any = !fatal_model.is_empty();
        match got {
            Ok(()) => simkit::check!(!any, "lost-fatal", "fatal errors {fatal_model:?} were dropped silently"),
            Err(Caught::Injected(_)) => simkit::probe("fatal-unwound"),
            Err(Caught::Other(s)) => {
                simkit::check!(any, "false-loss", "{s}");
                simkit::check!(fatal_model.iter().all(|f| s.contains(f.as_str())), "lost-fatal", "{s} does not name all of {fatal_model:?}");
                simkit::probe("fatal-loud");
            }
        }
    } else {
        let s = fatal.take_string();
        let got: Vec<&str> = s.split('\n').filter(|l| !l.is_empty()).collect();
        simkit::check!(got == fatal_model, "lost-fatal", "fatal errors {got:?}, expected {fatal_model:?}");
        simkit::check!(fatal.take_string().is_empty(), "reported-twice", "fatal errors came out twice");
    }
    // Unrelated items in another order: the same report.
    if case.a(1) & 1 == 1 && json.is_some() && case.kids.len() > 1 && model.get(&0).is_none_or(|x| x.0.len() < 2) {
        let mut back = order.clone();
        back.reverse();
        let (j2, _, _, f2) = whole(case, &back);
        let _ = f2.take_string();
        simkit::check!(j2 == json, "order-dependent", "reversed order gives {}, first order {}", j2.unwrap_or_default(), json.clone().unwrap_or_default());
        simkit::probe("reordered");
    }
}

fn err_node(r: &mut Rng, op: &str, depth: u32) -> Node {
    let kind = r.range(0, if depth > 2 { 4 } else { 6 });
    let kids = if kind >= 5 { (0..r.range(0, 3)).map(|_| err_node(r, "x", depth + 1)).collect() } else { vec![] };
    tree(op, &[kind, r.range(0, 9), if r.chance(1, 3) { r.range(1, 4) } else { 0 }, r.range(0, 2), r.range(0, 1)], kids)
}

fn ops(r: &mut Rng, depth: u32) -> Vec<Node> {
    let mut v = vec![];
    for _ in 0..r.range(0, if depth > 3 { 2 } else { 4 }) {
        v.push(match r.weighted(&[8, if depth > 4 { 0 } else { 8 }, 4, 2, 2, 2, 1, 2, 1]) {
            0 => err_node(r, "report", 0),
            1 => tree("item", &[r.range(0, 5), r.chance(1, 12) as i64, r.range(0, 1)], ops(r, depth + 1)),
            2 => {
                let mut k = vec![];
                for _ in 0..r.range(0, 4) {
                    k.push(match r.weighted(&[5, 2, 2, 1, 1, if depth > 4 { 0 } else { 2 }]) {
                        0 => err_node(r, "x", 0),
                        1 => node("ok", &[]),
                        2 => err_node(r, "err", 0),
                        3 => node("throw", &[3]),
                        4 => node("leave", &[]),
                        _ => tree("item", &[r.range(0, 5), 0, r.range(0, 1)], ops(r, depth + 1)),
                    });
                }
                tree("errors", &[r.range(0, 4), r.range(0, 9), 0, 0, r.range(0, 1)], k)
            }
            3 => node("cat", &[r.range(0, 3)]),
            4 => node("fatal", &[r.range(0, 99)]),
            5 => tree("try", &[], ops(r, depth + 1)),
            6 => node("throw", &[r.range(0, 9)]),
            7 => node("in", &[r.range(0, 5), r.chance(1, 8) as i64]),
            _ => node("leave", &[]),
        });
    }
    v
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    for _ in 0..r.range(1, 4) {
        if r.chance(3, 4) {
            kids.push(tree("item", &[r.range(0, 5), r.chance(1, 12) as i64, 0], ops(r, 0)));
        } else {
            kids.extend(ops(r, 2));
        }
    }
    tree("report", &[r.chance(1, 12) as i64, r.range(0, 1), r.range(0, 1), r.range(0, 1)], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 70_000,
        rule: "a case is a tree of items, reports, error collections, fatal errors, early returns and injected panics; non-trivial: more than 3 operations; distinct by the whole case",
        states: "distinct (errors and categories per item) reports",
        real: &["common/error_report.rs", "common/errors.rs", "common/arc_anyhow.rs"],
        stubs: &["the code that reports is simulated"],
        assumptions: &["context is added to crubit's own errors only: the report names the root cause"],
        expected_probes: &[
            "empty-list", "error-list", "context", "same-id", "left-early", "consolidated", "dropped-unreported", "loud-drop", "unwound-collection", "unwound", "fatal-unwound", "fatal-loud", "reordered",
        ],
        ..Check::new("C10", generate, run)
    })
}
