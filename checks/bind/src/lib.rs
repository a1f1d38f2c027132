//! Rust values held by C++ code: the C++ side (cpp/driver.h) does one operation at a time on
//! numbered cells; here is what each of them must then hold.
extern crate vals_impl;
pub mod calls;
use simkit::track::{obj_drop, obj_live, obj_new, obj_read};
use simkit::{ev, Node};
use std::cell::{Cell, RefCell};

pub const TYPES: [&str; 11] = ["Def", "Cln", "Mov", "Nei", "Nic", "Big", "Own", "Enu", "Nat", "Nmo", "Nas"];
const ENU: usize = 7;
const NO: i64 = i64::MIN;

macro_rules! worlds {
    ($($op:ident $reset:ident $spoiled:ident)*) => {
        unsafe extern "C-unwind" { $(
            fn $op(what: u32, k: i32, a: i32, b: i32, x: i32, live: i32, n: i64) -> i64;
            fn $reset(dirt: i32);
            fn $spoiled() -> u64;
        )* }
        type Op = unsafe extern "C-unwind" fn(u32, i32, i32, i32, i32, i32, i64) -> i64;
        const OPS: [Op; 11] = [$($op),*];
        const RESET: [unsafe extern "C-unwind" fn(i32); 11] = [$($reset),*];
        const SPOILED: [unsafe extern "C-unwind" fn() -> u64; 11] = [$($spoiled),*];
    };
}
worlds!(sim_op_Def sim_reset_Def sim_spoiled_Def sim_op_Cln sim_reset_Cln sim_spoiled_Cln sim_op_Mov sim_reset_Mov sim_spoiled_Mov
    sim_op_Nei sim_reset_Nei sim_spoiled_Nei sim_op_Nic sim_reset_Nic sim_spoiled_Nic sim_op_Big sim_reset_Big sim_spoiled_Big
    sim_op_Own sim_reset_Own sim_spoiled_Own sim_op_Enu sim_reset_Enu sim_spoiled_Enu sim_op_Nat sim_reset_Nat sim_spoiled_Nat
    sim_op_Nmo sim_reset_Nmo sim_spoiled_Nmo sim_op_Nas sim_reset_Nas sim_spoiled_Nas);

thread_local! {
    static VALUES: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    static OUT: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    /// Within the call of `a_stuck`.
    static STUCK: Cell<bool> = const { Cell::new(false) };
    /// Calls of Rust code still to come before one panics.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    /// What was called and what came out of it so far.
    static LOG: Cell<u64> = const { Cell::new(0) };
    /// The log at each call, and what is called.
    static HITS: RefCell<Option<Vec<(u64, String)>>> = const { RefCell::new(None) };
    /// Who hears of the panic, and of what C++ does afterwards.
    static HEAR: Cell<Option<*const simkit::proc::Pipe>> = const { Cell::new(None) };
    /// Nothing more is to be recorded.
    static OVER: Cell<bool> = const { Cell::new(false) };
    static BURNT: Cell<bool> = const { Cell::new(false) };
}
fn say(s: &str) {
    if let Some(p) = HEAR.get() {
        unsafe { (*p).say(s) };
    }
}
fn log(v: u64) {
    LOG.set(simkit::mix(LOG.get() ^ v));
}
/// Rust code that C++ called has its turn.
pub(crate) fn hit(what: &str, v: i64) {
    let n = FUSE.get();
    log(hash(what) as u64 ^ (v as u64) << 8);
    HITS.with_borrow_mut(|h| {
        if let (Some(h), false) = (h, OVER.get()) {
            let _p = simkit::pause();
            h.push((LOG.get(), what.to_string()));
        }
    });
    if n >= 0 {
        FUSE.set(n - 1);
        if n == 0 {
            BURNT.set(true);
            say(&format!("panic {:x};", LOG.get()));
            panic!("{what} panics");
        }
    }
}
/// A run that panics here does not come any further, even without the panic.
pub(crate) fn over() {
    OVER.set(true);
}
/// Runs `f` and returns the log at each call of Rust code, and what was called.
pub fn record(f: impl FnOnce()) -> Vec<(u64, String)> {
    LOG.set(0);
    FUSE.set(-1);
    OVER.set(false);
    HITS.with_borrow_mut(|h| *h = Some(vec![]));
    f();
    HITS.with_borrow_mut(|h| h.take().unwrap())
}
/// Runs `f`, with a panic in the `k`th call of Rust code.
pub fn burn(pipe: &simkit::proc::Pipe, k: usize, f: impl FnOnce()) {
    LOG.set(0);
    HEAR.set(Some(pipe));
    FUSE.set(k as i64);
    f();
    say("end;");
}
/// C++ returned to the caller.
pub fn returned() {
    if BURNT.get() {
        say("returned;");
    }
}
fn value(id: u64) -> i64 {
    if obj_read(id, 0) { VALUES.with_borrow(|v| v[id as usize]) } else { -999 }
}
fn fresh(v: i64) -> u64 {
    let _p = simkit::pause();
    let id = obj_new(0);
    VALUES.with_borrow_mut(|x| {
        x.resize(id as usize + 1, 0);
        x[id as usize] = v;
    });
    id
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_new(v: i64) -> u64 {
    hit("new", v);
    fresh(v)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_clone(id: u64) -> u64 {
    hit("clone", 0);
    fresh(value(id))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_drop(id: u64) {
    let _p = simkit::pause();
    if STUCK.get() && !obj_live().iter().any(|o| *o == id) {
        return simkit::fail("unmovable-array", "the elements of an array of C++-unmovable values passed by value are dropped on both sides");
    }
    obj_drop(id, 0);
    drop(_p);
    hit("drop", 0);
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_get(id: u64) -> i64 {
    hit("get", 0);
    value(id)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_set(id: u64, v: i64) {
    hit("set", v);
    if obj_read(id, 0) {
        VALUES.with_borrow_mut(|x| x[id as usize] = v);
    }
}
#[unsafe(no_mangle)]
extern "C" fn sim_out(v: i64) {
    let _p = simkit::pause();
    if BURNT.get() {
        say("C++ goes on;");
    }
    log(v as u64);
    OUT.with_borrow_mut(|o| o.push(v));
}
#[unsafe(no_mangle)]
extern "C" fn sim_guard() {
    say("C++ is unwound;");
}

/// What a cell holds.
#[derive(Clone, PartialEq, Debug)]
pub enum St {
    /// No value: storage only.
    Dead,
    /// A value that was moved from.
    Unk,
    One(i64),
    No,
    Has(i64),
    Good(i64),
    Bad(i64),
    /// With those moved from as `None`.
    List(Vec<Option<i64>>),
    Pair(i64, i64),
}
use St::*;
// Kinds of cells.
const V: usize = 0;
const O: usize = 1;
const R: usize = 2;
const D: usize = 3;
const M: usize = 4;
const C: usize = 5;
const E: usize = 6;
const P: usize = 7;
const L: usize = 8;
const S: usize = 9;
const SIZES: [usize; 10] = [5, 3, 2, 2, 2, 3, 2, 2, 2, 2];
pub const KINDS: [&str; 10] = ["value", "Option", "Result", "std::optional", "rs::Movable", "Vec", "error value", "tuple", "Slot", "std::vector"];

fn hash(s: &str) -> u32 {
    s.bytes().fold(2166136261u32, |h, c| (h ^ c as u32).wrapping_mul(16777619))
}

pub fn op_has_kind(op: &str) -> bool {
    matches!(op, "default" | "copy" | "move" | "through" | "drop" | "swap" | "memswap" | "relocate")
}

pub struct Sim {
    pub t: usize,
    cells: Vec<Vec<St>>,
    hold: bool,
    kept: Vec<i64>,
    /// Which cell each kind reads in C++ is known to be offered.
    pub done: u64,
}

impl Sim {
    pub fn new(t: usize, dirt: i64) -> Sim {
        simkit::track::obj_reset();
        VALUES.with_borrow_mut(|v| v.clear());
        unsafe { RESET[t](dirt as i32) };
        let _p = simkit::pause();
        let s = Sim { t, cells: SIZES.iter().map(|&n| vec![Dead; n]).collect(), hold: false, kept: vec![], done: 0 };
        s.cpp("lose", V, 0, 0, 0, &Dead, 0);
        OUT.with_borrow_mut(|o| o.clear());
        s
    }
    fn cpp(&self, what: &str, k: usize, a: usize, b: usize, x: usize, live: &St, n: i64) -> bool {
        let (w, _r) = (hash(what), simkit::resume());
        let y = unsafe { OPS[self.t](w, k as i32, a as i32, b as i32, x as i32, (*live != Dead) as i32, n) != NO };
        returned();
        y
    }
    fn norm(&self, v: i64) -> i64 {
        if self.t == ENU && v % 3 == 0 { 0 } else { v }
    }
    fn in_hold(&self, k: usize, i: usize) -> bool {
        matches!((k, i), (V, 4) | (O, 2) | (C, 2))
    }
    /// Does the cell have storage?
    fn there(&self, k: usize, i: usize) -> bool {
        if !self.in_hold(k, i) {
            return true;
        }
        self.hold
            && match TYPES[self.t] {
                "Def" => true,
                "Nic" | "Big" | "Cln" => k != C,
                "Own" | "Mov" => k == O,
                _ => false,
            }
    }
    fn at(&self, k: usize, i: usize) -> &St {
        &self.cells[k][i]
    }
    fn pick(&self, k: usize, a: usize, f: impl Fn(&St) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..SIZES[k]).filter(|&i| self.there(k, i) && f(self.at(k, i))).collect();
        if c.is_empty() { None } else { Some(c[a % c.len()]) }
    }
    fn known(&self, k: usize, a: usize) -> Option<usize> {
        self.pick(k, a, |s| !matches!(s, Dead | Unk))
    }
    fn live(&self, k: usize, a: usize) -> Option<usize> {
        self.pick(k, a, |s| *s != Dead)
    }
    fn some(&self, k: usize, a: usize) -> Option<usize> {
        self.pick(k, a, |s| matches!(s, Has(_)))
    }
    fn dst(&self, k: usize, a: usize) -> usize {
        self.pick(k, a, |_| true).unwrap()
    }
    fn slot(&self, k: usize, a: usize) -> Option<usize> {
        self.pick(k, a, |s| *s == Dead)
    }
    fn set(&mut self, k: usize, i: usize, s: St) {
        self.cells[k][i] = s;
    }
    fn val(&self, k: usize, i: usize) -> i64 {
        match self.at(k, i) {
            One(v) | Has(v) | Good(v) | Bad(v) => *v,
            _ => 0,
        }
    }
    /// Does the operation return the values `want`?
    fn out(&self, what: &str, k: usize, a: usize, b: usize, x: usize, n: i64, want: i64) -> bool {
        let s = One(0);
        if !self.cpp(what, k, a, b, x, &s, n) {
            return false;
        }
        let got = OUT.with_borrow_mut(|o| o.pop());
        simkit::check!(got == Some(want), "wrong-result", "`{what}` returned {got:?} instead of {want}");
        true
    }
    fn maybe(&self, v: i64) -> St {
        let none = if self.t == ENU { v % 2 == 0 } else { v % 3 == 0 };
        if none { No } else { Has(self.norm(v)) }
    }

    /// One operation; does nothing when nothing is there for it to work on.
    pub fn exec(&mut self, o: &Node) -> Option<()> {
        let _p = simkit::pause();
        let (a, b, x) = (o.a(0).unsigned_abs() as usize, o.a(1).unsigned_abs() as usize, o.a(2).unsigned_abs() as usize);
        let n = o.a(3).abs() + 1;
        let op = o.op.as_str();
        let k = x % 10;
        let did = match op {
            "default" => {
                let i = self.dst(k, a);
                if k == R { return None; }
                let to = match k { V => One(0), O | D => No, M => Has(0), _ => List(vec![]) };
                let d = self.cpp(op, k, i, i, 0, self.at(k, i), 0);
                if d { self.set(k, i, to); }
                d
            }
            "copy" | "move" | "through" => {
                let j = self.known(k, b)?;
                let i = self.dst(k, a);
                if k == S && i == j && op == "move" { return None; }
                let d = self.cpp(op, k, i, j, 0, self.at(k, i), 0);
                if d && i != j {
                    let s = self.at(k, j).clone();
                    if op != "copy" { self.set(k, j, if k == M { No } else { Unk }); }
                    self.set(k, i, s);
                }
                if d && i == j { simkit::probe("self-assigned"); }
                d
            }
            "drop" => {
                let i = self.pick(k, a, |s| *s != Dead)?;
                if self.in_hold(k, i) { return None; }
                let d = if k == L { self.cpp("l_drop", k, i, i, 0, &Dead, 0) } else { self.cpp(op, k, i, i, 0, &Dead, 0) };
                if d { self.set(k, i, Dead); }
                d
            }
            "swap" | "memswap" => {
                let (i, j) = (self.known(k, a)?, self.known(k, b)?);
                let d = self.cpp(op, k, i, j, 0, &Dead, 0);
                if d { let (s, t) = (self.at(k, i).clone(), self.at(k, j).clone()); self.set(k, i, t); self.set(k, j, s); }
                d
            }
            "relocate" => {
                let (i, j) = (self.slot(k, a)?, self.live(k, b)?);
                if self.in_hold(k, i) || self.in_hold(k, j) { return None; }
                let d = self.cpp(op, k, i, j, 0, &Dead, 0);
                if d { let s = self.at(k, j).clone(); self.set(k, i, s); self.set(k, j, Dead); }
                d
            }
            "make" | "emake" => {
                let k = if op == "make" { V } else { E };
                let i = self.dst(k, a);
                let d = self.cpp(op, k, i, 0, 0, self.at(k, i), n);
                if d { let v = if k == V { self.norm(n) } else { n }; self.set(k, i, One(v)); }
                d
            }
            "set" | "eset" | "pick_mut" => {
                let k = if op == "eset" { E } else { V };
                let i = self.known(k, a)?;
                let d = self.cpp(op, k, i, 0, 0, &Dead, n);
                if d {
                    // A variant with something in it takes the value, the other becomes one.
                    self.set(k, i, One(if k == V && self.t == ENU && self.val(k, i) == 0 { self.norm_made(n) } else { n }));
                }
                d
            }
            "change" | "copy_in" => {
                let (i, j) = (self.known(V, a)?, self.known(V, b)?);
                if i == j { return None; }
                let d = self.cpp(op, V, i, j, 0, &Dead, 0);
                if d {
                    let (s, t) = (self.at(V, i).clone(), self.at(V, j).clone());
                    self.set(V, i, t);
                    if op == "change" { self.set(V, j, s); }
                }
                d
            }
            "pick" => {
                let (i, j) = (self.known(V, a)?, self.known(V, b)?);
                let f = x % 2;
                self.out(op, V, i, j, f, 0, self.val(V, if f == 1 { i } else { j }))
            }
            "give" => {
                let i = self.dst(V, a);
                let d = self.cpp(op, V, i, 0, 0, self.at(V, i), 0);
                if d { let v = self.kept.pop().unwrap_or(-1); self.set(V, i, One(v)); }
                d
            }
            "kept" => self.out(op, V, 0, 0, 0, 0, self.kept.len() as i64),
            "lose" => {
                let d = self.cpp(op, V, 0, 0, 0, &Dead, 0);
                if d { self.kept.clear(); }
                d
            }
            "take" | "takec" => {
                let i = self.known(V, a)?;
                let d = self.out(op, V, i, 0, 0, 0, self.val(V, i));
                if d && op == "take" { self.set(V, i, Unk); }
                d
            }
            "pass" => {
                let j = self.known(V, b)?;
                let i = self.dst(V, a);
                let v = self.val(V, j);
                let d = self.cpp(op, V, i, j, 0, self.at(V, i), 0);
                if d { self.set(V, j, Unk); self.set(V, i, One(v)); }
                d
            }
            "keep" | "keepc" => {
                let i = self.known(V, a)?;
                let v = self.val(V, i);
                let d = self.cpp(op, V, i, 0, 0, &Dead, 0);
                if d { self.kept.push(v); if op == "keep" { self.set(V, i, Unk); } }
                d
            }
            "both" | "bothc" => {
                let (i, j) = (self.known(V, a)?, self.known(V, b)?);
                if i == j && op == "both" { return None; }
                let c = self.dst(V, x / 2);
                let first = x % 2;
                let v = self.val(V, if first == 1 { i } else { j });
                let d = self.cpp(op, V, i, j, c | first << 3, self.at(V, c), 0);
                if d {
                    self.set(V, i, Unk);
                    if op == "both" { self.set(V, j, Unk); }
                    self.set(V, c, One(v));
                }
                d
            }
            "o_null" => {
                let (k, x) = if x % 2 == 0 { (O, 0) } else { (D, 1) };
                let i = self.dst(k, a);
                let d = self.cpp(op, k, i, 0, x, self.at(k, i), 0);
                if d { self.set(k, i, No); }
                d
            }
            "o_from" => {
                let x = x % 8;
                let k = if x < 5 { O } else { D };
                let j = self.known(V, b)?;
                let i = self.dst(k, a);
                let v = self.val(V, j);
                let d = self.cpp(op, k, i, j, x, self.at(k, i), 0);
                if d { if matches!(x, 0 | 3 | 5 | 7) { self.set(V, j, Unk); } self.set(k, i, Has(v)); }
                d
            }
            "o_make" => {
                let x = x % 6;
                let k = if matches!(x, 3 | 4) { D } else { O };
                let i = self.dst(k, a);
                let to = match x { 0 | 1 | 3 => Has(self.norm(n)), 2 => Has(0), _ => self.maybe(n) };
                let d = self.cpp(op, k, i, 0, x, self.at(k, i), n);
                if d { self.set(k, i, to); }
                d
            }
            "o_std" | "o_to" => {
                let (k, f) = if op == "o_std" { (O, D) } else { (D, O) };
                let j = self.known(f, b)?;
                let i = self.dst(k, a);
                let d = self.cpp(op, k, i, j, 0, self.at(k, i), 0);
                if d { let s = self.at(f, j).clone(); self.set(f, j, Unk); self.set(k, i, s); }
                d
            }
            "o_out" => {
                let x = x % 4;
                let f = if x < 2 { O } else { D };
                let j = self.some(f, b)?;
                let i = self.dst(V, a);
                let v = self.val(f, j);
                let d = self.cpp(op, V, i, j, x, self.at(V, i), 0);
                if d { if x % 2 == 0 { self.set(f, j, Unk); } self.set(V, i, One(v)); }
                d
            }
            "o_set" => {
                let x = x % 3;
                let k = if x < 2 { O } else { D };
                let i = self.some(k, a)?;
                if self.t == ENU && self.val(k, i) == 0 { return None; }
                let d = self.cpp(op, k, i, 0, x, &Dead, n);
                if d { self.set(k, i, Has(n)); }
                d
            }
            "o_put" => {
                let i = self.live(O, a)?;
                let d = self.cpp(op, O, i, 0, 0, &Dead, n);
                if d { self.set(O, i, Has(n)); }
                d
            }
            "o_unput" | "o_peek" => {
                let i = self.known(O, a)?;
                let v = if *self.at(O, i) == No { -1 } else { self.val(O, i) };
                let d = self.out(op, O, i, 0, 0, 0, v);
                if d && op == "o_unput" { self.set(O, i, No); }
                d
            }
            "o_un" | "o_unc" => {
                let i = self.known(D, a)?;
                let v = if *self.at(D, i) == No { -1 } else { self.val(D, i) };
                let d = self.out(op, D, i, 0, 0, 0, v);
                if d && op == "o_un" { self.set(D, i, Unk); }
                d
            }
            "o_unv" => {
                let i = self.known(V, a)?;
                let d = self.out(op, V, i, 0, 0, 0, self.val(V, i));
                if d { self.set(V, i, Unk); }
                d
            }
            "o_pass" => {
                let j = self.known(D, b)?;
                let i = self.dst(D, a);
                let s = self.at(D, j).clone();
                let d = self.cpp(op, D, i, j, 0, self.at(D, i), 0);
                if d { self.set(D, j, Unk); self.set(D, i, s); }
                d
            }
            "o_nested" => {
                let i = self.dst(D, a);
                let d = self.cpp(op, D, i, 0, 0, self.at(D, i), n);
                if d { self.set(D, i, if n % 3 == 2 { Has(n) } else { No }); }
                d
            }
            "o_reset" => {
                let i = self.live(D, a)?;
                let d = self.cpp(op, D, i, 0, 0, &Dead, 0);
                if d { self.set(D, i, No); }
                d
            }
            "r_make" => {
                let i = self.dst(R, a);
                let d = self.cpp(op, R, i, 0, 0, self.at(R, i), n);
                if d { self.set(R, i, if n % 3 == 0 { Bad(n) } else { Good(n) }); }
                d
            }
            "r_ok" => {
                let x = x % 6;
                let i = self.dst(R, a);
                if x == 5 {
                    let d = self.cpp(op, R, i, 0, x, self.at(R, i), n);
                    if d { self.set(R, i, Good(n)); }
                    d
                } else {
                    let j = self.known(V, b)?;
                    let v = self.val(V, j);
                    let d = self.cpp(op, R, i, j, x, self.at(R, i), 0);
                    if d { if matches!(x, 0 | 2 | 4) { self.set(V, j, Unk); } self.set(R, i, Good(v)); }
                    d
                }
            }
            "r_err" => {
                let x = x % 6;
                let i = self.dst(R, a);
                if x == 5 {
                    let d = self.cpp(op, R, i, 0, x, self.at(R, i), n);
                    if d { self.set(R, i, Bad(n)); }
                    d
                } else {
                    let j = self.known(E, b)?;
                    let v = self.val(E, j);
                    let d = self.cpp(op, R, i, j, x, self.at(R, i), 0);
                    if d { if matches!(x, 0 | 2 | 4) { self.set(E, j, Unk); } self.set(R, i, Bad(v)); }
                    d
                }
            }
            "r_set" => {
                let i = self.known(R, a)?;
                let d = self.cpp(op, R, i, 0, x % 3, &Dead, n);
                if d { let s = if matches!(self.at(R, i), Good(_)) { Good(n) } else { Bad(n) }; self.set(R, i, s); }
                d
            }
            "r_out" | "r_eout" => {
                let x = x % 3;
                let ok = op == "r_out";
                let j = self.pick(R, b, |s| if ok { matches!(s, Good(_)) } else { matches!(s, Bad(_)) })?;
                let k = if ok { V } else { E };
                let i = self.dst(k, a);
                let v = self.val(R, j);
                let d = self.cpp(op, k, i, j, x, self.at(k, i), 0);
                if d { if x != 1 { self.set(R, j, Unk); } self.set(k, i, One(v)); }
                d
            }
            "r_put" => {
                let i = self.live(R, a)?;
                let d = self.cpp(op, R, i, 0, 0, &Dead, n);
                if d { self.set(R, i, if n % 3 == 0 { Bad(n) } else { Good(n) }); }
                d
            }
            "r_peek" | "r_un" | "r_unc" => {
                let i = self.known(R, a)?;
                let v = match self.at(R, i) { Bad(v) => -2 - v, s => { let Good(v) = s else { return None }; *v } };
                let d = self.out(op, R, i, 0, 0, 0, v);
                if d && op == "r_un" { self.set(R, i, Unk); }
                d
            }
            "m_from" => {
                let x = x % 4;
                let i = self.dst(M, a);
                if x == 3 {
                    let d = self.cpp(op, M, i, 0, x, self.at(M, i), n);
                    if d { let v = self.norm(n); self.set(M, i, Has(v)); }
                    d
                } else {
                    let j = self.known(V, b)?;
                    let v = self.val(V, j);
                    let d = self.cpp(op, M, i, j, x, self.at(M, i), 0);
                    if d { if x < 2 { self.set(V, j, Unk); } self.set(M, i, Has(v)); }
                    d
                }
            }
            "m_slot" => {
                let j = self.known(L, b)?;
                let i = self.dst(M, a);
                let v = self.val(L, j);
                let d = self.cpp(op, M, i, j, 0, self.at(M, i), 0);
                if d { self.set(L, j, Dead); self.set(M, i, Has(v)); }
                d
            }
            "m_set" => {
                let i = self.some(M, a)?;
                if self.t == ENU && self.val(M, i) == 0 { return None; }
                let d = self.cpp(op, M, i, 0, x % 2, &Dead, n);
                if d { self.set(M, i, Has(n)); }
                d
            }
            "m_out" => {
                let j = self.some(M, b)?;
                let i = self.dst(V, a);
                let v = self.val(M, j);
                let d = self.cpp(op, V, i, j, x % 2, self.at(V, i), 0);
                if d { if x % 2 == 0 { self.set(M, j, Unk); } self.set(V, i, One(v)); }
                d
            }
            "l_fill" => {
                let i = self.slot(L, a)?;
                let d = self.cpp(op, L, i, 0, 0, &Dead, n);
                if d { let v = self.norm(n); self.set(L, i, One(v)); }
                d
            }
            "l_from" => {
                let (i, j) = (self.slot(L, a)?, self.known(V, b)?);
                let v = self.val(V, j);
                let d = self.cpp(op, L, i, j, 0, &Dead, 0);
                if d { self.set(V, j, Unk); self.set(L, i, One(v)); }
                d
            }
            "l_move" => {
                let (i, j) = (self.slot(L, a)?, self.known(L, b)?);
                let v = self.val(L, j);
                let d = self.cpp(op, L, i, j, 0, &Dead, 0);
                if d { self.set(L, j, Unk); self.set(L, i, One(v)); }
                d
            }
            "l_take" => {
                let j = self.known(L, b)?;
                let i = self.dst(V, a);
                let v = self.val(L, j);
                let d = self.cpp(op, V, i, j, 0, self.at(V, i), 0);
                if d { self.set(L, j, Dead); self.set(V, i, One(v)); }
                d
            }
            "c_make" => {
                let i = self.dst(C, a);
                let d = self.cpp(op, C, i, 0, 0, self.at(C, i), n);
                if d { self.set(C, i, List((0..n % 4).map(|j| Some(n + j)).collect())); }
                d
            }
            _ if op.starts_with("c_") || op.starts_with("s_") => return self.list(op, a, b, x, n),
            "a_make" => {
                let v = |n| if self.t == ENU { self.norm(n) } else { n };
                self.out(op, V, 0, 0, 0, n, v(n) * 1000 + v(n + 1))
            }
            "a_sum" | "a_sumc" | "a_keep" | "a_swap" | "a_nest" | "a_slot" => {
                let (i, j) = (self.known(V, a)?, self.known(V, b)?);
                if i == j { return None; }
                let (v, w) = (self.val(V, i), self.val(V, j));
                let d = if op.starts_with("a_sum") { self.out(op, V, i, j, 0, 0, v * 1000 + w) } else { self.cpp(op, V, i, j, 0, &Dead, 0) };
                if d {
                    match op {
                        "a_sum" => { self.set(V, i, Unk); self.set(V, j, Unk); }
                        "a_keep" => { self.kept.extend([v, w]); self.set(V, i, Unk); self.set(V, j, Unk); }
                        "a_sumc" => {}
                        _ => { self.set(V, i, One(w)); self.set(V, j, One(v)); }
                    }
                }
                d
            }
            "a_stuck" => {
                STUCK.set(true);
                let d = self.out(op, V, 0, 0, 0, n, n * 1000 + n + 1);
                STUCK.set(false);
                d
            }
            "p_make" => {
                let i = self.dst(P, a);
                let d = self.cpp(op, P, i, 0, 0, self.at(P, i), n);
                if d { self.set(P, i, Pair(n, n + 1)); }
                d
            }
            "p_from" => {
                let (j, l) = (self.known(V, b)?, self.known(E, x)?);
                let i = self.dst(P, a);
                let d = self.cpp(op, P, i, j, l, self.at(P, i), 0);
                if d { let s = Pair(self.val(V, j), self.val(E, l)); self.set(V, j, Unk); self.set(E, l, Unk); self.set(P, i, s); }
                d
            }
            "p_un" | "p_unc" => {
                let i = self.known(P, a)?;
                let Pair(v, w) = *self.at(P, i) else { return None };
                let d = self.out(op, P, i, 0, 0, 0, v * 1000 + w);
                if d && op == "p_un" { self.set(P, i, Unk); }
                d
            }
            "p_unv" => {
                let (i, j) = (self.known(V, a)?, self.known(E, b)?);
                let d = self.out(op, V, i, j, 0, 0, self.val(V, i) * 1000 + self.val(E, j));
                if d { self.set(V, i, Unk); self.set(E, j, Unk); }
                d
            }
            "h_make" => {
                if self.hold { return None; }
                let d = self.cpp(op, 10, 0, 0, 0, &Dead, n);
                if d {
                    self.hold = true;
                    let two = matches!(TYPES[self.t], "Cln" | "Mov");
                    for (k, s) in [(V, One(if two { n } else { 0 })), (O, if two { self.maybe(n + (TYPES[self.t] == "Mov") as i64) } else { No }), (C, List(vec![]))] {
                        let i = SIZES[k] - 1;
                        if self.there(k, i) { self.set(k, i, s); }
                    }
                }
                d
            }
            "h_drop" => {
                if !self.hold { return None; }
                let d = self.cpp("drop", 10, 0, 0, 0, &Dead, 0);
                if d { self.hold_all(Dead); self.hold = false; }
                d
            }
            "h_out" | "h_round" | "h_slot" => {
                if !self.hold { return None; }
                let d = self.cpp(op, 10, 0, 0, 0, &Dead, 0);
                if d && op == "h_out" { self.hold_all(Unk); }
                d
            }
            _ => return None,
        };
        if !did { return None; }
        self.done += 1;
        Some(())
    }
    /// What `set` makes of the empty variant.
    fn norm_made(&self, v: i64) -> i64 {
        v
    }
    fn hold_all(&mut self, s: St) {
        for k in [V, O, C] {
            let i = SIZES[k] - 1;
            if self.there(k, i) { self.set(k, i, s.clone()); }
        }
    }
    fn list(&mut self, op: &str, a: usize, b: usize, x: usize, n: i64) -> Option<()> {
        let k = if op.starts_with('c') { C } else { S };
        let into_value = matches!(op, "c_out" | "c_copy" | "s_out");
        let i = self.known(k, if into_value { b } else { a })?;
        let List(mut l) = self.at(k, i).clone() else { return None };
        let len = l.len();
        let e = x.checked_rem(len);
        let d = match op {
            "c_add" => { let d = self.cpp(op, k, i, 0, 0, &Dead, n); l.push(Some(n)); d }
            "c_sub" => match l.pop() {
                None => self.out(op, k, i, 0, 0, 0, -1),
                Some(None) => return None,
                Some(Some(v)) => self.out(op, k, i, 0, 0, 0, v),
            },
            "c_drain" | "c_drainc" => {
                if l.iter().any(|v| v.is_none()) { return None; }
                let d = self.out(op, k, i, 0, 0, 0, l.iter().map(|v| v.unwrap()).sum());
                if d && op == "c_drain" { self.set(k, i, Unk); self.done += 1; return Some(()); }
                d
            }
            "c_set" => { let e = e?; l[e]?; let d = self.cpp(op, k, i, 0, e, &Dead, n); l[e] = Some(n); d }
            "c_swap" => { let (e, f) = (e?, b % len); let d = self.cpp(op, k, i, f, e, &Dead, 0); l.swap(e, f); d }
            "c_out" | "s_out" | "c_copy" => {
                let e = e?;
                let v = l[e]?;
                let j = self.dst(V, a);
                let d = self.cpp(op, V, j, i, e, self.at(V, j), 0);
                if d { self.set(V, j, One(v)); }
                if op != "c_copy" { l[e] = None; }
                d
            }
            "c_in" => {
                let e = e?;
                let j = self.known(V, b)?;
                let d = self.cpp(op, k, i, j, e, &Dead, 0);
                if d { l[e] = Some(self.val(V, j)); self.set(V, j, Unk); }
                d
            }
            "s_push" | "s_pushc" => {
                let j = self.known(V, b)?;
                l.push(Some(self.val(V, j)));
                let d = self.cpp(op, k, i, j, 0, &Dead, 0);
                if d && op == "s_push" { self.set(V, j, Unk); }
                d
            }
            "s_emplace" => { let d = self.cpp(op, k, i, 0, 0, &Dead, n); let v = self.norm(n); l.push(Some(v)); d }
            "s_insert" => { let e = x % (len + 1); let d = self.cpp(op, k, i, 0, e, &Dead, n); let v = self.norm(n); l.insert(e, Some(v)); d }
            "s_erase" => { let e = e?; let d = self.cpp(op, k, i, 0, e, &Dead, 0); l.remove(e); d }
            "s_pop" => { l.pop()?; self.cpp(op, k, i, 0, 0, &Dead, 0) }
            "s_clear" => { l.clear(); self.cpp(op, k, i, 0, 0, &Dead, 0) }
            "s_reverse" => { l.reverse(); self.cpp(op, k, i, 0, 0, &Dead, 0) }
            "s_rotate" => { let e = e?; l.rotate_left(e); self.cpp(op, k, i, 0, e, &Dead, 0) }
            "s_sort" => {
                if l.iter().any(|v| v.is_none()) { return None; }
                l.sort();
                self.cpp(op, k, i, 0, 0, &Dead, 0)
            }
            "s_fit" => self.cpp(op, k, i, 0, 0, &Dead, 0),
            _ => return None,
        };
        if !d { return None; }
        self.set(k, i, List(l));
        self.done += 1;
        Some(())
    }

    /// Reads every cell whose content is known.
    pub fn look(&self) {
        let _p = simkit::pause();
        let mut least = self.kept.len();
        for k in 0..10 {
            for i in 0..SIZES[k] {
                let s = self.at(k, i);
                if matches!(s, Dead | Unk) || !self.there(k, i) { continue; }
                OUT.with_borrow_mut(|o| o.clear());
                if !self.cpp("read", k, i, 0, 0, s, 0) { continue; }
                let got = OUT.with_borrow_mut(|o| std::mem::take(o));
                let want: Vec<Option<i64>> = match s {
                    One(v) => vec![Some(*v)],
                    No => vec![Some(0)],
                    Has(v) => vec![Some(1), Some(*v)],
                    Good(v) => vec![Some(1), Some(*v)],
                    Bad(v) => vec![Some(0), Some(*v)],
                    List(l) => std::iter::once(Some(l.len() as i64)).chain(l.iter().copied()).collect(),
                    Pair(v, w) => vec![Some(*v), Some(*w)],
                    _ => vec![],
                };
                let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| w.is_none_or(|w| w == *g));
                simkit::check!(same, "wrong-value", "{} {i} of {} reads {got:?}, but holds {s:?}", KINDS[k], TYPES[self.t]);
                if self.t != ENU {
                    least += match s { One(_) | Has(_) | Good(_) | Bad(_) => 1, Pair(..) => 2, List(l) if TYPES[self.t] == "Nmo" => l.iter().flatten().count(), List(l) => l.len(), _ => 0 };
                }
            }
        }
        let live = obj_live().len();
        simkit::check!(live >= least, "shared", "{least} handles share {live} values");
        let bad = unsafe { SPOILED[self.t]() };
        simkit::check!(bad == 0, "spoiled", "{bad} bytes beside a value were overwritten");
    }
    pub fn state(&self) -> u64 {
        let s = self.cells.iter().flatten().fold(0u64, |h, s| {
            simkit::mix(h ^ match s { Dead => 1, Unk => 2, One(_) => 3, No => 4, Has(_) => 5, Good(_) => 6, Bad(_) => 7, List(l) => 8 + l.len() as u64, Pair(..) => 100 })
        });
        simkit::mix(s ^ self.t as u64 ^ (self.hold as u64) << 8)
    }
    /// Drops all there is.
    pub fn end(&mut self) {
        let _p = simkit::pause();
        if self.hold { self.cpp("drop", 10, 0, 0, 0, &Dead, 0); self.hold_all(Dead); self.hold = false; }
        for k in 0..10 {
            for i in 0..SIZES[k] {
                if *self.at(k, i) != Dead {
                    self.cpp(if k == L { "l_drop" } else { "drop" }, k, i, i, 0, &Dead, 0);
                    self.set(k, i, Dead);
                }
            }
        }
        self.cpp("lose", V, 0, 0, 0, &Dead, 0);
        OUT.with_borrow_mut(|o| o.clear());
        let l = obj_live();
        simkit::check!(l.is_empty(), "leak", "{} values were never dropped", l.len());
    }
    pub fn describe(&self, o: &Node, did: bool) {
        ev!("{} {:?}{}", o.op, o.args, if did { "" } else { " (nothing to do)" });
    }
}

pub const NAMES: &[&str] = &[
    "default", "copy", "move", "through", "drop", "swap", "memswap", "relocate", "make", "emake", "set", "eset", "pick_mut", "change",
    "copy_in", "pick", "give", "kept", "lose", "take", "takec", "pass", "keep", "keepc", "both", "bothc", "o_null", "o_from", "o_make",
    "o_std", "o_to", "o_out", "o_set", "o_put", "o_unput", "o_peek", "o_un", "o_unc", "o_unv", "o_pass", "o_nested", "o_reset",
    "r_make", "r_ok", "r_err", "r_set", "r_out", "r_eout", "r_put", "r_peek", "r_un", "r_unc", "m_from", "m_slot", "m_set", "m_out",
    "l_fill", "l_from", "l_move", "l_take", "c_make", "c_add", "c_sub", "c_drain", "c_drainc", "c_set", "c_swap", "c_out", "c_copy",
    "c_in", "s_push", "s_pushc", "s_emplace", "s_insert", "s_erase", "s_pop", "s_clear", "s_reverse", "s_rotate", "s_sort", "s_fit",
    "s_out", "a_make", "a_sum", "a_sumc", "a_keep", "a_swap", "a_nest", "a_slot", "a_stuck", "p_make", "p_from", "p_un", "p_unc", "p_unv", "h_make", "h_drop", "h_out", "h_round", "h_slot",
];

/// A history of one type: mostly about a few of the operations, and a few of the kinds.
pub fn history(r: &mut simkit::Rng, most: i64) -> Vec<Node> {
    let focus = [r.usize(10), r.usize(10)];
    let prefix = |k: usize| ["", "o_", "r_", "o_", "m_", "c_", "e", "p_", "l_", "s_"][k];
    let mut w: Vec<u64> = NAMES.iter().map(|_| *r.pick(&[0, 0, 1, 1, 3])).collect();
    for (i, n) in NAMES.iter().enumerate() {
        if op_has_kind(n) { w[i] += 6; }
        if matches!(*n, "make" | "emake" | "h_make") { w[i] += 2; }
        if focus.iter().any(|&k| !prefix(k).is_empty() && n.starts_with(prefix(k))) { w[i] = w[i] * 2 + 2; }
        if *n == "a_stuck" && w[i] > 0 { w[i] = (w[i] == 3) as u64; }
    }
    let n = r.range(4, most);
    (0..n).map(|i| {
        let o = NAMES[r.weighted(&w)];
        // Something to start with.
        let (o, k) = if i < 6 && r.chance(1, 2) {
            match focus[i as usize % 2] {
                V => ("make", 0), O => ("o_make", r.range(0, 1)), R => ("r_make", 0), D => ("o_make", 3), M => ("m_from", 3),
                C => ("c_make", 0), E => ("emake", 0), P => ("p_make", 0), L => ("l_fill", 0), _ => ("default", 9),
            }
        } else if op_has_kind(o) && r.chance(2, 3) {
            (o, *r.pick(&focus) as i64)
        } else {
            (o, r.range(0, 19))
        };
        simkit::node(o, &[r.range(0, 9), r.range(0, 9), k, 100 + i * 16 + r.range(0, 11)])
    }).collect()
}
