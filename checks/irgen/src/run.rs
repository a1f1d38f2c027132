//! What the checks of the generator share.
use crate::judge::Rust;
use crate::*;
use simkit::{check, ev};

pub const PLAIN: Accidents = Accidents { keys: 1, maps: 1, ids: 1 };

/// The declarations without the faults, for their number, and the faults.
pub fn faults_of(case: &Node) -> Vec<Fault> {
    let (_, w) = build(case, PLAIN, &[]);
    let f = made::faults(case, w.decls.len());
    for x in &f {
        simkit::fault(FAULT_NAMES[x.kind as usize]);
        ev!("fault {} in declaration {}", FAULT_NAMES[x.kind as usize], x.item);
    }
    f
}

/// Runs the generator on a thread of its own, with the hash keys of `acc`; nothing on a panic, which is a violation.
pub fn generate(case: &Node, acc: Accidents, faults: &[Fault], golden: bool) -> Option<(Answer, World)> {
    let (p, w) = build(case, acc, faults);
    let o = with_keys(acc.keys, || try_answer(&p, golden));
    simkit::step();
    match o {
        Ok(o) => {
            if let Some(f) = std::env::var_os("IRGEN_DUMP") {
                // For a person who looks at a replay.
                let _ = std::fs::write(f, format!("{}\n{}\n{}\n{}", o.rs, o.cc, o.report, o.fatal));
            }
            simkit::reached(simkit::hash_bytes(7, o.rs.as_bytes()));
            Some((o, w))
        }
        Err(e) => {
            let short: String = e.chars().take(300).collect();
            simkit::fail("no-answer", &format!("the generator gave no bindings for well-formed headers: {short}"));
            None
        }
    }
}

pub fn read(o: &Answer) -> Option<Rust> {
    match Rust::read(&o.rs) {
        Ok(r) => Some(r),
        Err(e) => {
            check!(false, "not-rust", "the generated Rust does not parse: {e}");
            None
        }
    }
}

/// The first line in which two texts differ.
pub fn differ(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let cut = |s: &str, at: usize| -> String { s.chars().skip(at.saturating_sub(40)).take(120).collect() };
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            let at = x.chars().zip(y.chars()).take_while(|(p, q)| p == q).count();
            return Some(format!("line {}: `{}` and `{}`", n + 1, cut(x, at), cut(y, at)));
        }
    }
    Some(format!("{} lines and {} lines", a.lines().count(), b.lines().count()))
}
