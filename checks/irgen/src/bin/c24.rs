//! C24: the two halves of the bindings fit each other and the headers.
use check_irgen::run::*;
use check_irgen::*;
use simkit::{Check, Node, Rng, check, ev};
use std::collections::BTreeSet;

fn generate_case(r: &mut Rng, _index: u64) -> Node {
    let faults = r.usize(4);
    made::case(r, 10, faults, 1)
}

fn run(case: &Node) {
    let faults = faults_of(case);
    let Some((o, w)) = generate(case, PLAIN, &faults, case.a(5) % 2 == 0) else { return };
    let Some(r) = read(&o) else { return };
    ev!("{} declarations, {} chunks", w.decls.len(), r.chunks.len());
    for ((p, space, n), k) in &r.defs {
        check!(*k == 1, "defined-twice", "`{n}` is defined {k} times as a {space} in `{p}`");
    }
    let th = judge::thunks(&o.cc);
    let cells: BTreeSet<String> = r.records.iter().filter(|(_, i)| quote::ToTokens::to_token_stream(i).to_string().contains("UnsafeCell")).map(|(p, _)| judge::norm(p.rsplit("::").next().unwrap().trim_start_matches("r#"))).collect();
    for (n, (k, symbol)) in &r.foreign {
        match (symbol, th.get(n)) {
            (Some(s), None) => {
                simkit::probe("direct-call");
                let of: Vec<&Function> = w.decls.iter().filter_map(|d| d.func.as_ref()).filter(|f| f.symbol == *s).collect();
                check!(!of.is_empty(), "no-symbol", "`{n}` stands for the symbol `{s}`, which no declaration has");
                check!(of.len() == 1, "symbol-of-two", "`{n}` stands for the symbol `{s}`, which {} declarations have", of.len());
                let f = of[0];
                check!(f.direct, "direct-call", "`{n}` calls `{s}` without a thunk, which only C++ can call: {f:?}");
                check!(k.params.len() == f.params.len(), "direct-arity", "`{n}` has {} parameters and `{s}` {}", k.params.len(), f.params.len());
                for (i, (x, (_, y))) in k.params.iter().zip(&f.params).enumerate() {
                    let m = judge::misfit(&w, &cells, x, &y.kind);
                    check!(m.is_none(), "direct-type", "parameter {i} of `{n}` is {}", m.unwrap());
                }
                let m = judge::misfit(&w, &cells, &k.result, &f.result.kind);
                check!(m.is_none(), "direct-type", "the result of `{n}` is {}", m.unwrap());
            }
            (Some(_), Some(_)) => check!(false, "thunk-hidden", "`{n}` is defined in C++ but the Rust calls another symbol"),
            (None, None) => check!(false, "thunk-missing", "the Rust calls `{n}`, which the C++ does not define"),
            (None, Some((k2, times))) => {
                simkit::probe("thunk");
                simkit::nontrivial();
                check!(*times == 1, "thunk-twice", "the C++ defines `{n}` {times} times");
                let (x, y) = (k.params.len(), k2.params.len());
                check!(x == y, "thunk-arity", "`{n}` has {x} parameters in Rust and {y} in C++");
                for (i, (x, y)) in k.params.iter().zip(&k2.params).enumerate() {
                    // What is printed is passed as if it could be written.
                    let y = match (n.starts_with("__crubit_fmt"), y) {
                        (true, judge::Kind::Pointer(_, t)) => &judge::Kind::Pointer(None, t.clone()),
                        _ => y,
                    };
                    let m = judge::misfit(&w, &cells, x, y);
                    check!(m.is_none(), "thunk-type", "parameter {i} of `{n}` is {}", m.unwrap());
                }
                let m = judge::misfit(&w, &cells, &k.result, &k2.result);
                check!(m.is_none(), "thunk-type", "the result of `{n}` is {}", m.unwrap());
                let Some(name) = n.strip_prefix("__rust_thunk__") else { continue };
                let of: Vec<&Function> = w.decls.iter().filter_map(|d| d.func.as_ref()).filter(|f| name == f.symbol || (f.symbol.starts_with('\u{1}') && name.ends_with(&f.symbol[1..].replace('$', "_u36_").replace('.', "_u46_"))) || (name.len() == f.symbol.len() + 9 && name.ends_with(&f.symbol))).collect();
                if let [f] = of[..] {
                    simkit::probe("thunk-of-function");
                    judge::thunk_does(&w, n, k2, f);
                }
            }
        }
    }
    for n in th.keys() {
        check!(r.foreign.contains_key(n), "thunk-unused", "the C++ defines `{n}`, which the Rust does not declare");
    }
    for n in &r.used {
        check!(r.foreign.contains_key(n), "not-declared", "the Rust calls `{n}`, which it does not declare");
    }
    let cc: String = o.cc.split_whitespace().collect();
    let rs: Vec<String> = r.chunks.iter().map(|c| c.text.split_whitespace().collect::<String>()).collect();
    let mut unbound = None;
    for (p, item) in &r.records {
        let name = judge::norm(p.rsplit("::").next().unwrap_or(""));
        let mut all = w.decls.iter().filter(|d| d.kind == "rec" && judge::norm(&d.name) == name);
        let (Some(d), None) = (all.next(), all.next()) else { continue };
        let (size, align) = (d.size / 8, d.align / 8);
        // The compilers are to check it too.
        let path = format!("crate{}", p.split("::").map(|x| x.to_string()).collect::<Vec<_>>().join("::"));
        check!(rs.iter().any(|c| *c == format!("assert!(::core::mem::size_of::<{path}>()=={size})")), "size-not-asserted", "the Rust does not assert that the size of `{path}` is {size}");
        check!(rs.iter().any(|c| *c == format!("assert!(::core::mem::align_of::<{path}>()=={align})")), "align-not-asserted", "the Rust does not assert that the alignment of `{path}` is {align}");
        check!(cc.contains(&format!("{})=={size})", d.path.rsplit("::").next().unwrap())), "size-not-asserted", "the C++ does not assert that the size of `{}` is {size}", d.path);
        unbound = unbound.or(judge::owns(&w, &o.rs, &r, p, item, d));
        let Some((fields, s, a)) = judge::record_layout(&w, item) else {
            simkit::probe("layout-not-modelled");
            continue;
        };
        simkit::probe("layout");
        check!(s == size, "size", "the Rust `{path}` has {s} bytes and the C++ class {size}");
        check!(a == align, "alignment", "the Rust `{path}` is aligned to {a} and the C++ class to {align}");
        for (n, off, _, public) in &d.fields {
            match fields.get(n) {
                Some(x) => check!(x * 8 == *off, "offset", "`{n}` of `{path}` is at {x} in Rust and at bit {off} in C++"),
                None => check!(!public, "field-missing", "the public member `{n}` of `{path}` is not there"),
            }
        }
    }
    check!(unbound.is_none(), "drop-of-unbound", "{}", unbound.unwrap());
}

fn main() {
    simkit::main(&Check {
        quick_cases: 6000,
        quick_secs: 100,
        thorough_secs: 600,
        hang_secs: 60,
        rule: "the generated Rust parses and defines nothing twice; the thunks it calls are those the C++ defines, once each and with as many parameters; \
               records have the size, alignment and offsets of the C++ classes, and both halves assert it",
        states: "distinct texts of generated Rust",
        real: &["rs_bindings_from_cc/generate_bindings (all of it), database, ir, lifetime_defaults_transform", "common/{memoized,error_report,errors,arc_anyhow,code_gen_utils,crubit_feature}"],
        stubs: &["clang and the importer: a tree of declarations as an ir.proto message", "protobuf: owned structs written from the .proto files", "clang-format, rustfmt and both compilers: not run; the layout of Rust is a model of repr(C)"],
        assumptions: &["the message describes headers that are legal C++"],
        expected_probes: &["thunk", "thunk-of-function", "direct-call", "layout", "copied-as-bytes", "destroyed-in-place", "destroyed-by-drop", "field-destroyed-by-cpp"],
        level: "exploration",
        ..Check::new("C24", generate_case, run)
    });
}
