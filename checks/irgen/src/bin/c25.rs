//! C25: a damaged message is refused when it arrives, or bound; never accepted and then stumbled over.
use check_irgen::run::*;
use check_irgen::*;
use protobuf::{Damage, Damager};
use simkit::{Check, Node, Rng, check, ev, node};

fn generate_case(r: &mut Rng, _index: u64) -> Node {
    let mut c = made::case(r, 5, 0, 0);
    if r.chance(1, 4) {
        c.kids.push(node("flt", &[r.below(1000) as i64, r.below(FAULT_NAMES.len() as u64) as i64]));
    }
    for _ in 0..4 + r.usize(16) {
        c.kids.push(node("dmg", &[r.below(1 << 30) as i64, r.below(1 << 30) as i64]));
    }
    c
}

fn run(case: &Node) {
    let faults = faults_of(case);
    let golden = case.a(5) % 2 == 0;
    let (good, _) = build(case, PLAIN, &faults);
    // The message as it should be is the one that C22 to C24 look at.
    let mut count = Damager::new(u64::MAX, 0);
    good.clone().damage(&mut count);
    if count.seen == 0 {
        return;
    }
    for d in case.kids.iter().filter(|k| k.op == "dmg") {
        let mut v = Damager::new(d.a(0) as u64 % count.seen, d.a(1) as u64);
        let mut p = good.clone();
        p.damage(&mut v);
        let Some((how, what)) = v.done else { continue };
        if p == good {
            continue;
        }
        simkit::fault(how);
        simkit::nontrivial();
        simkit::step();
        ev!("{how} {what}");
        // What is read, and then everything that the views of it give.
        let read = with_keys(PLAIN.keys, || {
            simkit::catch(|| ir::proto_to_ir(p.as_view()).map_err(|e| format!("{e:#}"))).map(|r| r.map(|ir| views(&ir)))
        });
        match read {
            Err(simkit::Caught::Injected(_)) => unreachable!(),
            Err(simkit::Caught::Other(m)) => {
                check!(false, "refused-by-panic", "{how} at {what}: reading the message panics: {}", cut(&m));
                return;
            }
            Ok(Err(e)) => {
                simkit::probe("refused");
                check!(!e.is_empty(), "refused-silently", "{how} at {what}: refused without saying why");
                simkit::reached(simkit::hash_bytes(3, format!("{how}{what}{}", e.lines().next().unwrap_or("")).as_bytes()));
            }
            Ok(Ok(seen)) => {
                simkit::probe("accepted");
                if let Err(m) = seen {
                    check!(false, "accepted-then-unreadable", "{how} at {what}: the message is accepted, and reading it on panics: {}", cut(&m));
                    return;
                }
                simkit::reached(simkit::hash_bytes(3, format!("{how}{what}").as_bytes()));
                // A name that is missing or another is a message about other headers: those need not be legal.
                if !matches!(how, "enum-unspecified" | "enum-unknown" | "oneof-not-set" | "string-not-utf8") {
                    simkit::probe("other-headers");
                    continue;
                }
                simkit::probe("bound-despite-damage");
                if let Err(e) = with_keys(PLAIN.keys, || try_answer(&p, golden)) {
                    check!(false, "accepted-then-failed", "{how} at {what}: the message is accepted, and then: {}", cut(&e));
                    return;
                }
            }
        }
    }
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Reads every view of every item.
fn views(ir: &ir::IR) -> Result<usize, String> {
    match simkit::catch(|| ir.items().map(|i| format!("{i:?}").len()).sum()) {
        Ok(n) => Ok(n),
        Err(simkit::Caught::Injected(_)) => unreachable!(),
        Err(simkit::Caught::Other(m)) => Err(m),
    }
}

fn main() {
    simkit::main(&Check {
        quick_cases: 4000,
        quick_secs: 100,
        thorough_secs: 600,
        hang_secs: 60,
        rule: "a message with one thing missing, unknown or not text is refused with an error when it is read, or bindings are generated from it; \
               it is never accepted and then found wanting",
        states: "distinct pairs of a field's damage and the answer to it",
        real: &["rs_bindings_from_cc/ir.rs, ir/proto_to_ir.rs: all of the validation", "rs_bindings_from_cc/generate_bindings (all of it), database, lifetime_defaults_transform"],
        stubs: &["clang and the importer: a tree of declarations as an ir.proto message", "protobuf: owned structs written from the .proto files", "clang-format and rustfmt: not run"],
        assumptions: &["one thing in a message is wrong at a time; IDs and numbers are right"],
        expected_probes: &["refused", "accepted", "other-headers", "bound-despite-damage"],
        level: "exploration",
        ..Check::new("C25", generate_case, run)
    });
}
