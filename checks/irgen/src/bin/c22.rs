//! C22: the bindings depend only on what the headers declare.
use check_irgen::run::*;
use check_irgen::*;
use simkit::{Check, Node, Rng, check, ev};

fn generate_case(r: &mut Rng, _index: u64) -> Node {
    let faults = if r.chance(1, 3) { 0 } else { 1 + r.usize(3) };
    let runs = 2 + r.usize(2);
    made::case(r, 10, faults, runs)
}

fn same(a: &Answer, b: &Answer, why: &str) {
    for (what, class, x, y) in [
        ("Rust", "rust-differs", &a.rs, &b.rs),
        ("C++", "cpp-differs", &a.cc, &b.cc),
        ("error report", "report-differs", &a.report, &b.report),
        ("fatal errors", "fatal-differs", &a.fatal, &b.fatal),
    ] {
        let d = differ(x, y);
        check!(d.is_none(), class, "the {what} differs {why}: {}", d.unwrap());
    }
}

fn run(case: &Node) {
    let faults = faults_of(case);
    let golden = case.a(5) % 2 == 0;
    let Some((first, w)) = generate(case, PLAIN, &faults, golden) else { return };
    ev!("{} declarations, {} bytes of Rust, {} of C++", w.decls.len(), first.rs.len(), first.cc.len());
    simkit::nontrivial();
    if !first.report.contains("\"errors\"") {
        simkit::probe("nothing-to-report");
    } else {
        simkit::probe("errors-reported");
    }
    if !first.fatal.is_empty() {
        simkit::probe("fatal");
    }
    let runs: Vec<Accidents> = case.kids.iter().filter(|k| k.op == "acc").map(made::accidents).collect();
    for (k, acc) in runs.iter().enumerate() {
        // One source of accidents at a time, and then all.
        for (what, kind, a) in [
            ("with other keys of hash tables", "hash-keys", Accidents { keys: acc.keys, ..PLAIN }),
            ("with declarations at other addresses", "addresses", Accidents { ids: acc.ids, ..PLAIN }),
            ("with another order of map entries", "map-order", Accidents { maps: acc.maps, ..PLAIN }),
            ("in another process", "all-accidents", *acc),
        ] {
            if k > 0 && kind != "all-accidents" {
                continue;
            }
            simkit::fault(kind);
            let Some((o, _)) = generate(case, a, &faults, golden) else { return };
            same(&first, &o, what);
        }
    }
    // A process that answers several requests, on one thread or on two, through the entry point.
    let acc = runs.first().copied().unwrap_or(PLAIN);
    let (p, _) = build(case, PLAIN, &faults);
    let other = build(case, acc, &[]).0;
    let others_first = case.a(6) % 2 == 0;
    let o = with_keys(acc.keys, || {
        if others_first {
            let _ = try_answer(&other, !golden);
        }
        answer(p, golden)
    });
    simkit::fault(if others_first { "earlier-request" } else { "entry-point" });
    same(&first, &o, if others_first { "after another request" } else { "through the entry point" });
}

fn main() {
    simkit::main(&Check {
        quick_cases: 1500,
        quick_secs: 100,
        thorough_secs: 600,
        hang_secs: 60,
        rule: "the generated Rust, the C++, the error report and the fatal errors are the same, byte for byte, whatever the keys of hash tables, \
               the addresses of declarations, the order of map entries and the requests answered before",
        states: "distinct texts of generated Rust",
        real: &["rs_bindings_from_cc/generate_bindings (all of it), database, ir, lifetime_defaults_transform, cc_api", "common/{memoized,error_report,errors,arc_anyhow,code_gen_utils,ffi_types,crubit_feature}"],
        stubs: &["clang and the importer: a tree of declarations as an ir.proto message", "protobuf: owned structs written from the .proto files", "clang-format and rustfmt: not run", "getrandom: the seed"],
        assumptions: &["the message describes headers that are legal C++"],
        expected_probes: &["errors-reported", "nothing-to-report", "fatal"],
        level: "exploration",
        ..Check::new("C22", generate_case, run)
    });
}
