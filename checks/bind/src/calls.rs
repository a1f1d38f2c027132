//! The world of crate `calls`: every entry point there is.
extern crate calls_impl;
extern crate lossy_formatter_for_bindings;
use crate::{hit, returned};
use lossy_formatter::LossyFormatter;
use simkit::{Node, Rng};
use std::fmt;

unsafe extern "C-unwind" {
    fn sim_calls_op(what: i32, a: i32, b: i32, n: i64) -> i64;
    fn sim_calls_begin();
    fn sim_calls_end();
    fn sim_calls_write(f: &mut LossyFormatter<'_, '_>, n: i64);
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_enter(what: i64) {
    hit(NAMES.iter().find(|n| n.0 == what).map_or("?", |n| n.1), what);
}
const NAMES: &[(i64, &str)] = &[
    (1, "default"), (2, "clone"), (3, "clone_from"), (4, "drop"), (5, "eq"), (6, "partial_cmp"), (7, "cmp"), (8, "into"), (9, "from"),
    (10, "Display"), (12, "default of iterator"), (13, "drop of iterator"), (14, "next"), (15, "into_iter"), (16, "into_iter of a reference"),
    (20, "constructor"), (21, "method"), (22, "mutating method"), (23, "consuming method"), (24, "method returning a reference"),
    (25, "method returning a tuple"), (26, "array"), (27, "option"), (28, "result"), (29, "vector"), (30, "extern C method"), (31, "pointer"),
    (32, "str"), (33, "slice"), (40, "free function"), (41, "extern C function"), (42, "unmangled extern C function"), (43, "diverging function"),
    (44, "function in a module"), (45, "function giving a function"), (46, "future"), (47, "future of an object"), (48, "future of an object, later"),
    (49, "future within a future"), (50, "trait method"), (51, "mutating trait method"), (52, "consuming trait method"), (53, "trait function"),
    (70, "constructor of Half"), (71, "eq of Half"), (72, "partial_cmp of Half"), (73, "eq of another type"), (74, "partial_cmp with another type"), (60, "constructor of an enum"), (61, "method of an enum"), (62, "constructor of a union"),
];
#[unsafe(no_mangle)]
unsafe extern "C" fn sim_string_drop(s: *mut String) {
    unsafe { s.drop_in_place() }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn sim_string_data(s: *const String, n: *mut u64) -> *const u8 {
    unsafe {
        let s = &*s;
        *n = s.len() as u64;
        s.as_ptr()
    }
}

const OPS: i64 = 69;
const NEVER: i64 = 62;
const WRITE: i64 = 69;

/// Where text goes.
struct Sink(u32);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        hit("sink of a formatter", s.len() as i64);
        self.0 += 1;
        if self.0 % 5 == 0 { Err(fmt::Error) } else { Ok(()) }
    }
}
struct Text(i64);
impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unsafe { sim_calls_write(&mut LossyFormatter::new(f), self.0) };
        returned();
        Ok(())
    }
}

/// `whole`: including what ends the process; otherwise, stops at it.
pub fn run(ops: &[Node], whole: bool) {
    unsafe { sim_calls_begin() };
    returned();
    for o in ops {
        let n = o.a(3).abs() % 100000;
        match o.a(0).abs() % (OPS + 1) {
            NEVER if !whole => {
                hit("diverging function", 43);
                crate::over();
                break;
            }
            WRITE => {
                let _ = fmt::write(&mut Sink(o.a(1) as u32 % 5), format_args!("{}", Text(n)));
            }
            w => {
                unsafe { sim_calls_op(w as i32, o.a(1).abs() as i32 % 60, o.a(2).abs() as i32 % 60, n) };
            }
        }
        returned();
    }
    unsafe { sim_calls_end() };
    returned();
}
pub fn history(r: &mut Rng, most: i64) -> Vec<Node> {
    let n = r.range(1, most);
    // Mostly about a few of the operations, which belong together.
    let focus = if r.chance(1, 2) { Some(*r.pick(&[(9, 16), (25, 30), (40, 45), (40, 45), (46, 49), (50, 56), (65, 68)])) } else { None };
    let mut v: Vec<Node> = (0..n).map(|_| {
        let w = loop {
            let w = match focus {
                Some((lo, hi)) if r.chance(2, 3) => r.range(lo, hi),
                _ => r.range(0, OPS),
            };
            if w != NEVER { break w; }
        };
        simkit::node("call", &[w, r.range(0, 9), r.range(0, 9), r.range(1, 9999)])
    }).collect();
    if r.chance(1, 20) {
        v.push(simkit::node("call", &[NEVER, 0, 0, 0]));
    }
    v
}
