//! Random declarations, with faults and accidents.
use crate::*;
use simkit::{Node, Rng, node};

fn ty(r: &mut Rng, depth: usize) -> Node {
    let k = r.weighted(&[3, 1, 1, 1, 4, 4, 4, 2, 3, 1, 1, 1]) as i64;
    let mut n = node("ty", &[k, r.below(40) as i64, r.below(4) as i64, r.below(60) as i64]);
    if depth < 3 {
        for _ in 0..if k == 11 { r.usize(3) } else if k >= 7 { 1 } else { 0 } {
            n.kids.push(ty(r, depth + 1));
        }
    }
    n
}
fn args(r: &mut Rng, n: usize) -> Vec<i64> {
    (0..n).map(|_| r.below(1000) as i64).collect()
}
fn decl(r: &mut Rng, depth: usize, in_rec: bool) -> Node {
    let k = if in_rec { r.weighted(&[2, 8, 1, 1, 0, 1, 0, 0, 0, 1, 0]) } else { r.weighted(&[8, 8, 3, 2, 2, 3, 2, if depth < 2 { 4 } else { 0 }, 1, 1, 1]) };
    let op = ["rec", "fn", "enum", "const", "var", "alias", "fwd", "ns", "uns", "com", if r.chance(1, 2) { "use" } else { "ert" }][k];
    let op = if in_rec && op == "var" { "fn" } else { op };
    let mut n = node(op, &args(r, 21));
    match op {
        "rec" => {
            for _ in 0..r.usize(4) {
                let mut f = node("fld", &args(r, 6));
                f.kids.push(ty(r, 0));
                n.kids.push(f);
            }
            if depth < 2 {
                for _ in 0..r.usize(5) {
                    n.kids.push(decl(r, depth + 1, true));
                }
            }
        }
        "fn" => {
            for _ in 0..1 + r.usize(3) {
                n.kids.push(ty(r, 0));
            }
        }
        "var" | "alias" => n.kids.push(ty(r, 0)),
        "ns" => {
            for _ in 0..1 + r.usize(4) {
                n.kids.push(decl(r, depth + 1, false));
            }
        }
        _ => {}
    }
    n
}


/// Headers: up to `max` declarations in the outermost scope, `faults` faults and `runs` sets of accidents.
pub fn case(r: &mut Rng, max: usize, faults: usize, runs: usize) -> Node {
    let mut c = node("case", &args(r, 8));
    for _ in 0..1 + r.usize(max) {
        c.kids.push(decl(r, 0, false));
    }
    for _ in 0..faults {
        c.kids.push(node("flt", &[r.below(1000) as i64, r.below(FAULT_NAMES.len() as u64) as i64]));
    }
    for _ in 0..runs {
        c.kids.push(node("acc", &[r.below(1 << 30) as i64, r.below(1 << 30) as i64, r.below(1 << 30) as i64]));
    }
    c
}

pub fn accidents(n: &Node) -> Accidents {
    Accidents { keys: n.a(0) as u64, maps: n.a(1) as u64, ids: n.a(2) as u64 }
}

/// The faults of `case`, which has `count` declarations.
pub fn faults(case: &Node, count: usize) -> Vec<Fault> {
    case.kids.iter().filter(|k| k.op == "flt" && count > 0).map(|k| Fault { item: k.ix(0, count), kind: k.ix(1, FAULT_NAMES.len()) as u64 }).collect()
}
