//! C09: memoized queries against direct evaluation, over any dependency graph, request order,
//! number of databases and panic.
use memoized::{memoized, query_group};
use simkit::{ev, node, tree, Caught, Check, Injected, Node, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// No cycles; arbitrary, conditional, failing and cross-database dependencies.
    Acyclic,
    /// Any graph of cycle-breaking queries whose answer is the maximum of all reachable values.
    Lattice,
    /// Any graph of queries that must not depend on themselves.
    Plain,
    /// Simple rings of cycle-breaking queries with arbitrary values, asked once per database.
    Ring,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Cyc,
    Cyc2,
    Plain,
    Plain2,
    Side,
    Side2,
}
const KINDS: [Kind; 6] = [Kind::Cyc, Kind::Cyc2, Kind::Plain, Kind::Plain2, Kind::Side, Kind::Side2];
impl Kind {
    fn breaks(self) -> bool {
        !matches!(self, Kind::Plain | Kind::Plain2)
    }
}

struct Dep {
    to: usize,
    /// 0: the same database; otherwise database `db - 1`.
    db: usize,
    cond: bool,
    catch: bool,
}
struct Spec {
    kind: Kind,
    fail: bool,
    value: i64,
    deps: Vec<Dep>,
}
struct World {
    mode: Mode,
    nodes: Vec<Spec>,
    dbs: RefCell<Vec<Option<Rc<Db>>>>,
    /// (database, node) -> (started, completed)
    log: RefCell<BTreeMap<(u64, usize), (u64, u64)>>,
    starts: Cell<u64>,
    /// The panic to inject, and after how many more steps.
    inject: Cell<i64>,
    last: Cell<Option<(u64, usize)>>,
    depth: Cell<i64>,
}

/// A value; cloning it is a step that can fail.
#[derive(Debug)]
struct V(i64);
impl Clone for V {
    fn clone(&self) -> V {
        tick_in(true);
        V(self.0)
    }
}
/// A key; its hash is poor, so that equality decides.
#[derive(Debug, PartialEq, Eq)]
struct K(usize);
impl Clone for K {
    fn clone(&self) -> K {
        tick_in(true);
        K(self.0)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % 2).hash(h)
    }
}

thread_local! {
    static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
}
fn world() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone().unwrap())
}
fn tick() {
    tick_in(false)
}
fn tick_in(clone: bool) {
    simkit::step();
    let w = world();
    let n = w.inject.get();
    if n > 0 && !std::thread::panicking() {
        w.inject.set(n - 1);
        if n == 1 {
            if clone {
                // The answer on its way back is lost; its query may run again.
                if let Some(k) = w.last.get() {
                    w.log.borrow_mut().get_mut(&k).unwrap().1 = 0;
                }
                simkit::probe("clone-failed");
            }
            simkit::inject_panic(77);
        }
    }
}

const BOTTOM: i64 = i64::MIN;
fn dflt(m: Mode, k: Kind) -> i64 {
    match (m, k) {
        (Mode::Lattice, _) => BOTTOM,
        (_, Kind::Cyc) => -11,
        (_, Kind::Cyc2) => -22,
        (_, Kind::Side) => -33,
        _ => -44,
    }
}
fn side_error(name: &str) -> V {
    match name {
        "side" => V(dflt(world().mode, Kind::Side)),
        "side2" => V(dflt(world().mode, Kind::Side2)),
        _ => panic!("handler called with {name}"),
    }
}

query_group! {
    pub struct Db {
        #[input]
        fn id(&self) -> u64;
        #[input]
        fn salt(&self) -> i64;
        #[break_cycles_with = V(dflt(world().mode, Kind::Cyc))]
        fn cyc(&self, k: K) -> V;
        #[break_cycles_with = V(dflt(world().mode, Kind::Cyc2))]
        fn cyc2(&self, a: usize, k: K) -> V;
        fn plain(&self, k: K) -> V;
        fn plain2(&self, k: K, b: usize, c: K) -> V;
    }
}
fn cyc(db: &Db, k: K) -> V {
    body(db, k.0)
}
fn cyc2(db: &Db, a: usize, k: K) -> V {
    assert_eq!(a, k.0 / 2);
    body(db, k.0)
}
fn plain(db: &Db, k: K) -> V {
    body(db, k.0)
}
fn plain2(db: &Db, k: K, b: usize, c: K) -> V {
    assert!(k.0 == b && c.0 == 1);
    body(db, k.0)
}
fn side_impl(db: &Db, i: usize) -> V {
    body(db, i)
}
fn side2_impl(db: &Db, i: usize, j: usize) -> V {
    assert_eq!(i + j, 100);
    body(db, i)
}
memoized!(side_error, fn side(db: &crate::Db, i: usize) -> crate::V = side_impl);
memoized!(side_error, fn side2(db: &crate::Db, i: usize, j: usize) -> crate::V = side2_impl);

fn ask(db: &Db, i: usize) -> V {
    match world().nodes[i].kind {
        Kind::Cyc => db.cyc(K(i)),
        Kind::Cyc2 => db.cyc2(i / 2, K(i)),
        Kind::Plain => db.plain(K(i)),
        Kind::Plain2 => db.plain2(K(i), i, K(1)),
        Kind::Side => side(db, i),
        Kind::Side2 => side2(db, i, 100 - i),
    }
}

fn start(m: Mode, n: &Spec, salt: i64) -> i64 {
    if m == Mode::Lattice { n.value } else { simkit::mix((n.value ^ salt.wrapping_mul(0x9e37)) as u64) as i64 >> 8 }
}
fn join(m: Mode, acc: i64, v: i64) -> i64 {
    if m == Mode::Lattice { acc.max(v) } else { simkit::mix((acc ^ v.rotate_left(17)) as u64) as i64 >> 8 }
}
fn caught(acc: i64) -> i64 {
    simkit::mix(acc as u64 ^ 0xcafe) as i64 >> 8
}

fn body(db: &Db, i: usize) -> V {
    let w = world();
    w.log.borrow_mut().entry((db.id(), i)).or_default().0 += 1;
    w.starts.set(w.starts.get() + 1);
    if w.starts.get() > 200_000 {
        panic!("runaway evaluation");
    }
    w.depth.set(w.depth.get() + 1);
    if w.depth.get() > 200 {
        w.depth.set(0);
        panic!("runaway recursion");
    }
    tick();
    let n = &w.nodes[i];
    let mut acc = start(w.mode, n, db.salt());
    for d in &n.deps {
        if d.cond && acc & 8 == 0 {
            continue;
        }
        let other = if d.db == 0 { None } else { w.dbs.borrow()[d.db - 1].clone() };
        let on: &Db = other.as_deref().unwrap_or(db);
        let v = if d.catch {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ask(on, d.to))) {
                Ok(v) => v.0,
                Err(e) if e.is::<Injected>() => std::panic::resume_unwind(e),
                Err(_) => caught(acc),
            }
        } else {
            ask(on, d.to).0
        };
        acc = join(w.mode, acc, v);
        tick();
    }
    w.depth.set(w.depth.get() - 1);
    if n.fail {
        panic!("fail {i}");
    }
    w.log.borrow_mut().entry((db.id(), i)).or_default().1 += 1;
    w.last.set(Some((db.id(), i)));
    V(acc)
}

/// Direct evaluation. `active` breaks cycles where the documentation says so. Err(i): node i fails.
fn direct(w: &World, salts: &[i64], salt: i64, i: usize, active: &mut Vec<usize>, memo: &mut BTreeMap<(i64, usize), Result<i64, usize>>) -> Result<i64, usize> {
    if active.contains(&i) {
        return Ok(dflt(w.mode, w.nodes[i].kind));
    }
    if w.mode == Mode::Acyclic {
        if let Some(r) = memo.get(&(salt, i)) {
            return *r;
        }
    }
    let n = &w.nodes[i];
    let mut acc = start(w.mode, n, salt);
    active.push(i);
    let mut out = Ok(());
    for d in &n.deps {
        if d.cond && acc & 8 == 0 {
            continue;
        }
        let s = if d.db == 0 { salt } else { salts[d.db - 1] };
        match direct(w, salts, s, d.to, active, memo) {
            Ok(v) => acc = join(w.mode, acc, v),
            Err(_) if d.catch => acc = join(w.mode, acc, caught(acc)),
            Err(e) => {
                out = Err(e);
                break;
            }
        }
    }
    active.pop();
    let r = out.and(if n.fail { Err(i) } else { Ok(acc) });
    if w.mode == Mode::Acyclic {
        memo.insert((salt, i), r);
    }
    r
}

fn reach(w: &World, i: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::from([i]);
    let mut todo = vec![i];
    while let Some(k) = todo.pop() {
        for d in &w.nodes[k].deps {
            if seen.insert(d.to) {
                todo.push(d.to);
            }
        }
    }
    seen
}
fn on_cycle(w: &World, i: usize) -> bool {
    w.nodes[i].deps.iter().any(|d| reach(w, d.to).contains(&i))
}

fn build(case: &Node) -> World {
    let mode = [Mode::Acyclic, Mode::Lattice, Mode::Plain, Mode::Ring][case.ix(0, 4)];
    let specs: Vec<&Node> = case.kids.iter().filter(|k| k.op == "n").collect();
    let n = specs.len();
    let ring = if mode == Mode::Ring { 1 + case.ix(1, n.max(1)) } else { 0 };
    let mut nodes: Vec<Spec> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut deps = vec![];
            for d in s.kids.iter().filter(|d| d.op == "d") {
                let to = match mode {
                    Mode::Acyclic if i == 0 => continue,
                    Mode::Acyclic => d.ix(0, i),
                    // Ring nodes come first; behind them acyclic ones.
                    Mode::Ring if i < ring => {
                        if n > ring && d.a(0) % 2 == 0 { ring + d.ix(0, n - ring) } else { (i + 1) % ring }
                    }
                    Mode::Ring if i + 1 == n => continue,
                    Mode::Ring => i + 1 + d.ix(0, n - i - 1),
                    _ => d.ix(0, n),
                };
                let free = mode == Mode::Acyclic;
                deps.push(Dep { to, db: if free { d.ix(1, 3) } else { 0 }, cond: free && d.a(2) & 1 == 1, catch: free && d.a(3) & 1 == 1 });
            }
            if i < ring {
                deps.push(Dep { to: (i + 1) % ring, db: 0, cond: false, catch: false });
            }
            let fail = s.a(1) != 0 && mode != Mode::Ring;
            Spec { kind: KINDS[s.ix(0, 6)], fail, value: s.a(2), deps }
        })
        .collect();
    for (i, s) in nodes.iter_mut().enumerate() {
        if i < ring && !s.kind.breaks() {
            s.kind = Kind::Cyc;
        }
    }
    let mut w = World { mode, nodes, dbs: Default::default(), log: Default::default(), starts: Cell::new(0), inject: Cell::new(0), last: Cell::new(None), depth: Cell::new(0) };
    for i in 0..n {
        if on_cycle(&w, i) {
            let k = w.nodes[i].kind;
            if mode == Mode::Lattice && !k.breaks() {
                w.nodes[i].kind = if i % 2 == 0 { Kind::Cyc } else { Kind::Cyc2 };
            }
            if mode == Mode::Plain && k.breaks() {
                w.nodes[i].kind = if i % 2 == 0 { Kind::Plain } else { Kind::Plain2 };
            }
        }
    }
    w
}

fn new_db(id: u64, salt: i64) -> Rc<Db> {
    Rc::new(Db::new(id, salt, cyc, cyc2, plain, plain2))
}

fn simulate(case: &Node) {
    let w = Rc::new(build(case));
    let n = w.nodes.len();
    if n == 0 {
        return;
    }
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    let salt_of = |id: u64| if w.mode == Mode::Lattice { 0 } else { 1 + id as i64 };
    let mut made = 0u64;
    let mut fresh = || {
        made += 1;
        (new_db(made, salt_of(made)), made)
    };
    // Two databases that others may refer to; they live as long as the world.
    let mut ids = vec![];
    for _ in 0..2 {
        let (d, id) = fresh();
        w.dbs.borrow_mut().push(Some(d));
        ids.push(id);
    }
    let salts: Vec<i64> = ids.iter().map(|i| salt_of(*i)).collect();
    let mut done: BTreeSet<(u64, usize)> = BTreeSet::new();
    let mut since: Vec<u64> = vec![0, 1];
    let mut count = 2u64;
    for op in case.kids.iter().filter(|k| k.op != "n") {
        match op.op.as_str() {
            "new" => {
                let (d, id) = fresh();
                w.dbs.borrow_mut().push(Some(d));
                ids.push(id);
                since.push(count);
                count += 1;
            }
            "drop" => {
                let len = w.dbs.borrow().len();
                if len > 2 {
                    let k = 2 + op.ix(0, len - 2);
                    w.dbs.borrow_mut()[k] = None;
                    simkit::probe("db-dropped");
                }
            }
            // Many short-lived databases, so that the next one comes `span` after database `k`.
            "burn" => {
                let k = op.ix(0, since.len());
                let span = [2u64, 255, 256, 257, 65536][op.ix(1, 5)];
                while count < since[k] + span {
                    drop(new_db(0, 0));
                    count += 1;
                }
                simkit::probe("many-dbs");
                let (d, id) = fresh();
                w.dbs.borrow_mut().push(Some(d));
                ids.push(id);
                since.push(count);
                count += 1;
            }
            _ => {
                let mut k = op.ix(0, ids.len());
                let mut i = op.ix(1, n);
                if w.dbs.borrow()[k].is_none() {
                    k = 0;
                }
                if w.mode == Mode::Ring {
                    // One entry into the ring per database.
                    if let Some(j) = done.iter().find(|(d, j)| *d == ids[k] && on_cycle(&w, *j)) {
                        i = if on_cycle(&w, i) { j.1 } else { i };
                    }
                }
                let db = w.dbs.borrow()[k].clone().unwrap();
                let before = w.starts.get();
                w.log.borrow_mut().retain(|_, v| {
                    v.0 = 0;
                    true
                });
                let known: BTreeSet<(u64, usize)> = w.log.borrow().iter().filter(|(_, v)| v.1 > 0).map(|(k, _)| *k).collect();
                w.depth.set(0);
                w.inject.set(op.a(2).max(0));
                let got = simkit::catch(|| ask(&db, i));
                let fired = op.a(2) > 0 && w.inject.get() == 0;
                w.inject.set(0);
                let ran = w.starts.get() - before;
                let got = got.map(|v| v.0);
                ev!("db{k} q{i}: {got:?}, {ran} executed");
                simkit::reached(simkit::mix((w.mode as u64) << 40 | (i as u64) << 32 | done.len() as u64 ^ (ran << 8)));
                if w.mode == Mode::Acyclic {
                    for (key, v) in w.log.borrow().iter() {
                        simkit::check!(v.1 <= 1, "executed-twice", "query {key:?} completed {} times", v.1);
                        simkit::check!(!(known.contains(key) && v.0 > 0), "executed-twice", "query {key:?} was executed again after it had completed");
                    }
                }
                if fired {
                    simkit::check!(matches!(got, Err(Caught::Injected(77))), "wrong-failure", "injected panic, but q{i} gave {got:?}");
                    simkit::probe("request-failed");
                    continue;
                }
                if done.contains(&(ids[k], i)) {
                    simkit::check!(ran == 0, "not-memoized", "q{i} had been answered, but {ran} queries were executed again");
                    simkit::probe("memoized");
                }
                // What direct evaluation gives.
                let r = reach(&w, i);
                match w.mode {
                    Mode::Acyclic | Mode::Ring => match direct(&w, &salts, salt_of(ids[k]), i, &mut vec![], &mut BTreeMap::new()) {
                        Ok(v) => simkit::check!(got == Ok(v), "wrong-answer", "q{i} on db{k}: {got:?}, direct evaluation gives {v}"),
                        Err(f) => simkit::check!(got == Err(Caught::Other(format!("fail {f}"))), "wrong-failure", "q{i} on db{k}: {got:?}, direct evaluation fails in q{f}"),
                    },
                    Mode::Lattice => {
                        let bad: Vec<usize> = r.iter().filter(|j| w.nodes[**j].fail).copied().collect();
                        if bad.is_empty() {
                            let v = r.iter().map(|j| w.nodes[*j].value).max().unwrap();
                            simkit::check!(got == Ok(v), "wrong-answer", "q{i} on db{k}: {got:?}, direct evaluation gives {v}");
                            if r.iter().any(|j| on_cycle(&w, *j)) {
                                simkit::probe("cycle-broken");
                            }
                        } else {
                            let ok = bad.iter().any(|f| got == Err(Caught::Other(format!("fail {f}"))));
                            simkit::check!(ok, "wrong-failure", "q{i} on db{k}: {got:?}, direct evaluation fails in one of {bad:?}");
                        }
                    }
                    Mode::Plain => {
                        let bad: Vec<usize> = r.iter().filter(|j| w.nodes[**j].fail).copied().collect();
                        let cyc: Vec<usize> = r.iter().filter(|j| on_cycle(&w, **j)).copied().collect();
                        let name = |j: usize| if w.nodes[j].kind == Kind::Plain { "plain" } else { "plain2" };
                        if bad.is_empty() && cyc.is_empty() {
                            let want = direct(&w, &salts, salt_of(ids[k]), i, &mut vec![], &mut BTreeMap::new());
                            simkit::check!(got.as_ref().ok() == want.as_ref().ok(), "wrong-answer", "q{i} on db{k}: {got:?}, direct evaluation gives {want:?}");
                        } else {
                            let ok = match &got {
                                Err(Caught::Other(m)) => bad.iter().any(|f| *m == format!("fail {f}")) || cyc.iter().any(|j| m.contains("Cycle detected") && m.contains(&format!("'{}'", name(*j)))),
                                _ => false,
                            };
                            simkit::check!(ok, "wrong-failure", "q{i} on db{k}: {got:?}, expected a failure of {bad:?} or a cycle through {cyc:?}");
                            simkit::probe("plain-cycle");
                        }
                    }
                }
                if got.is_ok() {
                    done.insert((ids[k], i));
                } else {
                    simkit::probe("query-failed");
                }
            }
        }
    }
    w.dbs.borrow_mut().clear();
    WORLD.with(|x| *x.borrow_mut() = None);
}

fn run(case: &Node) {
    if case.size() > 4 {
        simkit::nontrivial();
    }
    // A thread of its own, so that thread-local tables start empty.
    let c = case.clone();
    let t = std::thread::Builder::new().stack_size(4 << 20).spawn(move || simkit::catch(|| simulate(&c))).unwrap();
    match t.join().unwrap() {
        Ok(()) => (),
        Err(e) => simkit::fail("harness-panic", &format!("{e:?}: {}", simkit::last_panic())),
    }
}

fn generate(r: &mut Rng, idx: u64) -> Node {
    let mode = r.weighted(&[5, 4, 2, 2]) as i64;
    let n = match mode {
        1 => r.range(1, 7),
        _ => r.range(1, 9),
    };
    let mut kids = vec![];
    let failing = r.chance(1, 3);
    for _ in 0..n {
        let mut deps = vec![];
        for _ in 0..r.range(0, 3) {
            deps.push(node("d", &[r.range(0, 11), if r.chance(1, 5) { r.range(1, 2) } else { 0 }, r.chance(1, 4) as i64, r.chance(1, 4) as i64]));
        }
        let kind = r.range(0, 5);
        kids.push(tree("n", &[kind, (failing && r.chance(1, 6)) as i64, r.range(0, 1 << 20)], deps));
    }
    let inj = r.chance(1, 2);
    for _ in 0..r.range(1, 10) {
        match r.weighted(&[12, 2, 1]) {
            0 => kids.push(node("ask", &[r.range(0, 4), r.range(0, 11), if inj && r.chance(1, 3) { r.range(1, 12) } else { 0 }])),
            1 => kids.push(node("new", &[])),
            _ => kids.push(node("drop", &[r.range(0, 9)])),
        }
        if idx % 40 == 7 && r.chance(1, 4) {
            kids.push(node("burn", &[r.range(0, 5), if r.chance(1, 12) { 4 } else { r.range(0, 3) }]));
            kids.push(node("ask", &[-1, r.range(0, 11), 0]));
        }
    }
    tree("world", &[mode, r.range(0, 9)], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 250_000,
        rule: "a case is a dependency graph of memoized queries (six ways to declare one), a history of requests on several databases, and panics injected after chosen steps; non-trivial: more than 4 parts; distinct by the whole case",
        states: "distinct (kind of graph, query, answers known, queries executed)",
        real: &["common/memoized.rs: query_group!, memoized!, internal"],
        stubs: &["the queries themselves are simulated"],
        assumptions: &["with cycles, answers are compared where they do not depend on which query of the cycle is asked first", "queries are pure but for injected panics"],
        expected_probes: &["db-dropped", "many-dbs", "request-failed", "clone-failed", "memoized", "cycle-broken", "plain-cycle", "query-failed"],
        ..Check::new("C09", generate, run)
    })
}
