//! C07: Rust code called from C++ panics, at any of its calls within a history of them.
use check_bind::{burn, calls, history, record, Sim};
use simkit::proc::{forked, Exit, SIGABRT};
use simkit::{check, ev, Check, Node, Rng};

fn generate(r: &mut Rng, _: u64) -> Node {
    let t = if r.chance(2, 3) { 8 } else { r.range(0, 7) };
    let mut ops = if t == 8 { calls::history(r, 16) } else { history(r, 25) };
    ops.retain(|o| o.op != "a_stuck");
    simkit::tree("case", &[t, r.range(0, 3), r.range(0, 9999), r.range(0, 9999), r.range(0, 9999)], ops)
}
fn whole(case: &Node, last: bool) {
    let t = case.ix(0, 9);
    if t == 8 {
        return calls::run(&case.kids, last);
    }
    let mut s = Sim::new(t, [0, 0xff, 0x01, 0xd5][case.ix(1, 4)]);
    for o in &case.kids {
        s.exec(o);
    }
    s.end();
}
fn run(case: &Node) {
    let hits = record(|| whole(case, false));
    if simkit::failed() || hits.is_empty() {
        return;
    }
    ev!("{} calls of Rust code", hits.len());
    for i in 2..5 {
        // One of the functions, then one of its calls.
        let n = case.a(i).unsigned_abs() as usize;
        let mut names: Vec<&str> = hits.iter().map(|h| h.1.as_str()).collect();
        names.sort();
        names.dedup();
        let name = names[n % names.len()];
        let calls: Vec<usize> = (0..hits.len()).filter(|&k| hits[k].1 == name).collect();
        let k = calls[n / names.len() % calls.len()];
        let (log, what) = &hits[k];
        let (end, said) = forked(|p| burn(p, k, || whole(case, true)));
        simkit::fault(&format!("panic in {what}"));
        simkit::step();
        simkit::reached(*log);
        ev!("call {k}, {what}: {end:?}, {said}");
        let Some(rest) = said.strip_prefix("panic ") else {
            return simkit::fail("not-repeatable", &format!("call {k} of {}, {what}, never came: {end:?} {said}", hits.len()));
        };
        let (at, rest) = rest.split_once(';').unwrap_or((rest, ""));
        check!(at == format!("{log:x}"), "effects-lost", "what was done before call {k}, {what}, differs from a run without a panic");
        check!(!rest.contains("C++ is unwound"), "unwound", "a panic in call {k}, {what}, unwinds C++ frames");
        check!(rest.is_empty(), "resumed", "after a panic in call {k}, {what}: {rest}");
        check!(end == Exit::Signal(SIGABRT), "not-terminated", "a panic in call {k}, {what}, ends with {end:?} instead of SIGABRT");
        simkit::nontrivial();
    }
}

fn main() {
    simkit::main(&Check {
        quick_cases: 30_000,
        rule: "a case is a crate's bindings (eight value types of `vals`, or `calls` with every kind of entry point there is: functions, methods, constructors, destructors, clones, comparisons, conversions, iteration, formatting, traits, futures and their polls, enums, unions, the lossy formatter), a history of C++ code that uses them, and three of the calls of Rust code in it, in each of which Rust panics, in a process of its own; non-trivial: the panic struck; distinct by the whole case",
        states: "distinct histories up to a panic",
        real: &["cc_bindings_from_rs: the generated bindings of crates calls and vals, by the built binary", "support/rs_std/dyn_erased_future.{h,rs}", "support/rs_std/waker.{h,cc}", "support/rs_std/lossy_formatter_for_bindings.{h,rs}", "support/rs_std/iterator_adapter.h", "support/rs_std/result.h", "support/rs_std/vec.h", "support/bridge.h"],
        stubs: &["headers of core and alloc bindings: forward declarations, Ordering and a String"],
        assumptions: &["Rust is built with panic=unwind and C++ with exceptions: otherwise nothing could unwind", "functions the user declares extern \"C-unwind\" may unwind, as documented"],
        expected_probes: &[],
        ..Check::new("C07", generate, run)
    });
}
