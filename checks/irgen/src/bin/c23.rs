//! C23: a declaration that cannot be bound leaves the others alone and is reported.
use check_irgen::run::*;
use check_irgen::*;
use simkit::{Check, Node, Rng, check, ev};
use std::collections::{BTreeMap, BTreeSet};

fn generate_case(r: &mut Rng, _index: u64) -> Node {
    let faults = 1 + r.usize(2);
    made::case(r, 10, faults, 1)
}

type Report = BTreeMap<String, (String, usize)>;
/// Entries of the report by unique name: name and number of errors.
fn report(o: &Answer) -> Report {
    let Ok(serde_json::Value::Array(v)) = serde_json::from_str(&o.report) else {
        check!(false, "not-json", "the error report is not a JSON list");
        return Report::new();
    };
    v.iter()
        .map(|e| {
            let t = |k: &str| e[k].as_str().unwrap_or("").to_string();
            (t("unique_name"), (t("name"), e["errors"].as_array().map_or(0, |a| a.len())))
        })
        .collect()
}

/// Whether each declaration that could be bound is; nothing is known of those that share a name.
fn bound(w: &World, r: &judge::Rust) -> BTreeMap<usize, bool> {
    let mut names = BTreeMap::<String, usize>::new();
    for d in &w.decls {
        *names.entry(judge::norm(&d.name)).or_default() += 1;
    }
    let defs: BTreeSet<String> = r.defs.iter().filter(|((_, sp, n), _)| *sp != "impl" && !n.starts_with("__")).map(|((_, _, n), _)| judge::norm(n.trim_start_matches("r#"))).collect();
    let used: BTreeSet<String> = r.chunks.iter().filter(|c| c.text.contains("forward_declare !")).map(|c| judge::norm(&c.text)).collect();
    w.decls
        .iter()
        .enumerate()
        .filter(|(_, d)| d.target == 0 && !d.special && matches!(d.kind, "rec" | "enum" | "alias" | "fn" | "const" | "var" | "fwd"))
        .filter(|(_, d)| names[&judge::norm(&d.name)] == 1)
        .map(|(i, d)| {
            let n = judge::norm(&d.name);
            (i, defs.contains(&n) || (d.kind == "fwd" && used.iter().any(|u| u.contains(&n))))
        })
        .collect()
}

fn told(case: &Node, w: &World, o: &Answer, r: &judge::Rust, absent: &BTreeSet<usize>) {
    let rep = report(o);
    let b = bound(w, r);
    let mut fatal_wanted = false;
    let mut fatal_possible = false;
    for (i, d) in w.decls.iter().enumerate() {
        fatal_possible |= d.annotated;
        fatal_possible |= d.must_bind && d.target == 0 && b.get(&i) != Some(&true);
    }
    for (i, ok) in &b {
        let d = &w.decls[*i];
        // What is inside a class without bindings is not looked at.
        let mut up = d.parent;
        let mut lost = absent.contains(i);
        while let Some(p) = up {
            lost |= w.decls[p].kind != "ns" && b.get(&p) != Some(&true);
            up = w.decls[p].parent;
        }
        if lost {
            continue;
        }
        let key = [format!("c:{}", d.path), format!("c:{}#{i}", d.path)];
        let n = key.iter().filter_map(|k| rep.get(k)).map(|x| x.1).max().unwrap_or(0);
        simkit::probe(if *ok { "bound" } else { "not-bound" });
        check!(*ok || n > 0, "silently-dropped", "{} `{}` has no bindings and the report does not say why", d.kind, d.path);
        fatal_wanted |= d.must_bind && !ok && !d.faulty;
    }
    let _ = case;
    if fatal_wanted {
        simkit::probe("must-bind-failed");
        check!(!o.fatal.is_empty(), "fatal-missing", "a declaration that must be bound is not, and there is no fatal error");
    }
    check!(fatal_possible || o.fatal.is_empty(), "fatal-for-nothing", "every declaration that must be bound is, but: {}", o.fatal.lines().next().unwrap_or(""));
}

fn run(case: &Node) {
    let faults = faults_of(case);
    let Some((o, w)) = generate(case, PLAIN, &[], true) else { return };
    let Some((o2, w2)) = generate(case, PLAIN, &faults, true) else { return };
    let (Some(r), Some(r2)) = (read(&o), read(&o2)) else { return };
    let absent: BTreeSet<usize> = faults.iter().filter(|f| f.kind == 3).map(|f| f.item).collect();
    told(case, &w, &o, &r, &BTreeSet::new());
    told(case, &w2, &o2, &r2, &absent);
    let from: Vec<usize> = faults.iter().map(|f| f.item).collect();
    let mut aff = judge::affected(&w, &from);
    aff.extend(judge::affected(&w2, &from));
    let tags = judge::tags(&w, &aff);
    ev!("{} declarations, {} may change", w.decls.len(), aff.len());
    if aff.len() < w.decls.len() {
        simkit::nontrivial();
    }
    if o.rs != o2.rs {
        simkit::probe("fault-shows");
    }
    let keep = |s: &str| {
        let n = judge::norm(s);
        // Parts that name no declaration belong to one that is not known; so do aliases of modules.
        n.contains('q') && !(n.starts_with("staticassertions") && n.ends_with(":copy)")) && !(n.contains("pubuse") && s.contains(" as ")) && !tags.iter().any(|t| n.contains(t))
    };
    let diff = |what: &str, x: Vec<String>, y: Vec<String>| {
        let cut = |s: &String| -> String { s.chars().take(200).collect() };
        let (sx, sy): (BTreeSet<_>, BTreeSet<_>) = (x.iter().collect(), y.iter().collect());
        for c in &x {
            check!(sy.contains(c), "neighbour-changed", "{what} of a declaration that has nothing to do with the fault is gone: {}", cut(c));
        }
        for c in &y {
            check!(sx.contains(c), "neighbour-changed", "{what} of a declaration that has nothing to do with the fault is new: {}", cut(c));
        }
        check!(x == y, "neighbour-moved", "{what} is in another order, or there more than once");
    };
    let pick = |r: &judge::Rust| -> Vec<String> { r.chunks.iter().map(|c| format!("{} {}", c.path, c.text)).filter(|c| keep(c)).collect() };
    diff("the Rust", pick(&r), pick(&r2));
    let pick = |c: &str| -> Vec<String> { judge::cc_lines(c).into_iter().filter(|c| keep(c)).collect() };
    diff("the C++", pick(&o.cc), pick(&o2.cc));
    // Of another target's declarations only those are in it that the generator happened to look at.
    let foreign: BTreeSet<String> = [&w, &w2].iter().flat_map(|w| w.decls.iter().enumerate()).filter(|(_, d)| d.target != 0).flat_map(|(i, d)| [format!("c:{}", d.path), format!("c:{}#{i}", d.path)]).collect();
    let pick = |o: &Answer| -> Vec<String> { report(o).into_iter().filter(|(k, _)| !foreign.contains(k)).map(|(k, v)| format!("{k} {} {}", v.0, v.1)).filter(|c| keep(c)).collect() };
    diff("the report", pick(&o), pick(&o2));
}

fn main() {
    simkit::main(&Check {
        quick_cases: 4000,
        quick_secs: 100,
        thorough_secs: 600,
        hang_secs: 60,
        rule: "with a fault in some declarations, the generator still answers; what it generates for declarations that do not depend on them is the same; \
               each declaration is bound or reported, and one that must be bound and is not is a fatal error",
        states: "distinct texts of generated Rust",
        real: &["rs_bindings_from_cc/generate_bindings (all of it), database, ir, lifetime_defaults_transform", "common/{memoized,error_report,errors,arc_anyhow,code_gen_utils,crubit_feature}"],
        stubs: &["clang and the importer: a tree of declarations as an ir.proto message", "protobuf: owned structs written from the .proto files", "clang-format and rustfmt: not run"],
        assumptions: &["the message describes headers that are legal C++"],
        expected_probes: &["bound", "not-bound", "fault-shows", "must-bind-failed"],
        level: "exploration",
        ..Check::new("C23", generate_case, run)
    });
}
