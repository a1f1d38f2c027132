//! Rust types with a value each, for C++ to hold.
#![allow(clippy::all)]
use std::cell::RefCell;

extern "C-unwind" {
    fn sim_tok_new(value: i64) -> u64;
    fn sim_tok_clone(id: u64) -> u64;
    fn sim_tok_drop(id: u64);
    fn sim_tok_get(id: u64) -> i64;
    fn sim_tok_set(id: u64, value: i64);
}

/// What is counted.
struct Tok {
    id: u64,
}
impl Tok {
    fn new(v: i64) -> Tok {
        Tok { id: unsafe { sim_tok_new(v) } }
    }
    fn get(&self) -> i64 {
        unsafe { sim_tok_get(self.id) }
    }
    fn set(&mut self, v: i64) {
        unsafe { sim_tok_set(self.id, v) }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok { id: unsafe { sim_tok_clone(self.id) } }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { sim_tok_drop(self.id) }
    }
}
impl Default for Tok {
    fn default() -> Tok {
        Tok::new(0)
    }
}

macro_rules! methods {
    ($t:ident, $kept:ident, ($v:ident) $make:expr, ($s:ident) $tok:expr, ($m:ident) $tokm:expr, $($mov:tt)*) => {
        thread_local!(static $kept: RefCell<Vec<$t>> = const { RefCell::new(Vec::new()) });
        impl $t {
            pub fn make($v: i64) -> $t { $make }
            pub fn get(&self) -> i64 { let $s = self; $tok.get() }
            pub fn set(&mut self, v: i64) { let $m = self; $tokm.set(v) }
            pub fn change(&mut self, with: &mut $t) { std::mem::swap(self, with) }
            pub fn copy_in(&mut self, from: &$t) { self.set(from.get()) }
            pub fn pick<'a>(&'a self, other: &'a $t, first: bool) -> &'a $t { if first { self } else { other } }
            pub fn pick_mut<'a>(&'a mut self) -> &'a mut $t { self }
            pub fn give() -> $t { $kept.with(|k| k.borrow_mut().pop()).unwrap_or_else(|| $t::make(-1)) }
            pub fn kept() -> i64 { $kept.with(|k| k.borrow().len() as i64) }
            pub fn lose() { let v = $kept.with(|k| std::mem::take(&mut *k.borrow_mut())); drop(v) }
            pub fn maybe(v: i64) -> Option<$t> { if v % 3 == 0 { None } else { Some($t::make(v)) } }
            pub fn result(v: i64) -> Result<$t, Cln> { if v % 3 == 0 { Err(Cln::make(v)) } else { Ok($t::make(v)) } }
            pub fn many(v: i64) -> Vec<$t> { (0..v % 4).map(|i| $t::make(v + i)).collect() }
            pub fn add(to: &mut Vec<$t>, v: i64) { to.push($t::make(v)) }
            pub fn sub(from: &mut Vec<$t>) -> i64 { from.pop().map_or(-1, |x| x.get()) }
            pub fn put(to: &mut Option<$t>, v: i64) { *to = Some($t::make(v)) }
            pub fn unput(from: &mut Option<$t>) -> i64 { from.take().map_or(-1, |x| x.get()) }
            pub fn peek(o: &Option<$t>) -> i64 { o.as_ref().map_or(-1, |x| x.get()) }
            pub fn res_put(to: &mut Result<$t, Cln>, v: i64) { *to = $t::result(v) }
            pub fn res_peek(o: &Result<$t, Cln>) -> i64 { match o { Ok(x) => x.get(), Err(e) => -2 - e.get() } }
            $($mov)*
        }
    };
}
/// By value: only what C++ can move.
macro_rules! movable {
    ($t:ident, $kept:ident, $($args:tt)*) => {
        methods!($t, $kept, $($args)*,
            pub fn take(self) -> i64 { self.get() }
            pub fn pass(self) -> $t { self }
            pub fn keep(self) { $kept.with(|k| k.borrow_mut().push(self)) }
            pub fn both(self, other: $t, first: bool) -> $t { if first { self } else { other } }
            pub fn un(o: Option<$t>) -> i64 { o.map_or(-1, |x| x.get()) }
            pub fn unres(o: Result<$t, Cln>) -> i64 { match o { Ok(x) => x.get(), Err(e) => -2 - e.get() } }
            pub fn pair(v: i64) -> ($t, Cln) { ($t::make(v), Cln::make(v + 1)) }
            pub fn unpair(p: ($t, Cln)) -> i64 { p.0.get() * 1000 + p.1.get() }
            pub fn drain(v: Vec<$t>) -> i64 { v.iter().map(|x| x.get()).sum() }
            pub fn nested(v: i64) -> Option<Option<$t>> { match v % 3 { 0 => None, 1 => Some(None), _ => Some(Some($t::make(v))) } }
            pub fn opt_pass(o: Option<$t>) -> Option<$t> { o }
            pub fn arr(v: i64) -> [$t; 2] { [$t::make(v), $t::make(v + 1)] }
            pub fn arr_id(a: [$t; 2]) -> [$t; 2] { a }
            pub fn arr_sum(a: [$t; 2]) -> i64 { a[0].get() * 1000 + a[1].get() }
            pub fn arr_keep(a: [$t; 2]) { $kept.with(|k| k.borrow_mut().extend(a)) }
            pub fn arr_nest(a: [[$t; 2]; 2]) -> [[$t; 2]; 2] { let [[p, q], [r, s]] = a; [[s, r], [q, p]] }
        );
    };
}

/// Default and Clone.
#[derive(Clone, Default)]
pub struct Def { pub x: i32, t: Tok }
movable!(Def, KEPT_DEF, (v) Def { x: 7, t: Tok::new(v) }, (s) s.t, (m) m.t);

/// Clone, no Default; assignment is not possible from itself.
pub struct Cln { pub x: i32, t: Tok }
impl Clone for Cln {
    fn clone(&self) -> Cln { Cln { x: self.x, t: self.t.clone() } }
    fn clone_from(&mut self, from: &Cln) {
        self.t.set(-6);
        self.x = from.x;
        self.t = from.t.clone();
    }
}
movable!(Cln, KEPT_CLN, (v) Cln { x: 7, t: Tok::new(v) }, (s) s.t, (m) m.t);

/// Default, no Clone.
#[derive(Default)]
pub struct Mov { pub x: i32, t: Tok }
movable!(Mov, KEPT_MOV, (v) Mov { x: 7, t: Tok::new(v) }, (s) s.t, (m) m.t);

/// Neither: stays where it is in C++.
pub struct Nei { pub x: i32, t: Tok }
methods!(Nei, KEPT_NEI, (v) Nei { x: 7, t: Tok::new(v) }, (s) s.t, (m) m.t,
    pub fn arr(v: i64) -> [Nei; 2] { [Nei::make(v), Nei::make(v + 1)] }
    pub fn arr_sum(a: [Nei; 2]) -> i64 { a[0].get() * 1000 + a[1].get() }
);

/// Holds a pointer that is never null.
#[derive(Clone, Default)]
pub struct Nic { t: Box<Tok> }
movable!(Nic, KEPT_NIC, (v) Nic { t: Box::new(Tok::new(v)) }, (s) s.t, (m) m.t);

#[derive(Clone, Default)]
#[repr(align(32))]
pub struct Big { pub before: [u8; 24], t: Tok, pub after: u8 }
movable!(Big, KEPT_BIG, (v) Big { before: [1; 24], t: Tok::new(v), after: 3 }, (s) s.t, (m) m.t);

/// A destructor of its own, besides that of what it holds; a spare byte value.
#[derive(Clone, Default)]
pub struct Own { pub flag: bool, t: Tok, extra: Option<Box<i64>> }
impl Drop for Own { fn drop(&mut self) { self.flag = !self.flag; } }
movable!(Own, KEPT_OWN, (v) Own { flag: true, t: Tok::new(v), extra: Some(Box::new(v)) }, (s) s.t, (m) m.t);

#[derive(Clone)]
pub enum Enu { One(Def), Two(Nic), Three }
impl Default for Enu { fn default() -> Enu { Enu::Three } }
impl Enu {
    fn tok(&mut self) -> Option<&mut Tok> { match self { Enu::One(d) => Some(&mut d.t), Enu::Two(n) => Some(&mut n.t), Enu::Three => None } }
    pub fn make(v: i64) -> Enu { match v % 3 { 0 => Enu::Three, 1 => Enu::One(Def::make(v)), _ => Enu::Two(Nic::make(v)) } }
    pub fn get(&self) -> i64 { match self { Enu::One(d) => d.get(), Enu::Two(n) => n.get(), Enu::Three => 0 } }
    pub fn set(&mut self, v: i64) { match self.tok() { Some(t) => t.set(v), None => *self = Enu::One(Def::make(v)) } }
    pub fn take(self) -> i64 { self.get() }
    pub fn pass(self) -> Enu { self }
    pub fn maybe(v: i64) -> Option<Enu> { if v % 2 == 0 { None } else { Some(Enu::make(v)) } }
    pub fn un(o: Option<Enu>) -> i64 { o.map_or(-1, |x| x.get()) }
}

/// Fields for C++ to assign to.
#[derive(Default)]
pub struct Hold {
    pub d: Def,
    pub n: Nic,
    pub b: Big,
    pub od: Option<Def>,
    pub on: Option<Nic>,
    pub ob: Option<Big>,
    pub oo: Option<Own>,
    pub vd: Vec<Def>,
}
pub struct Hold2 {
    pub c: Cln,
    pub oc: Option<Cln>,
    pub om: Option<Mov>,
    pub rd: Result<Def, Cln>,
    pub rn: Result<Nic, Def>,
    pub ru: Result<(), Nic>,
    pub rb: Result<Own, u8>,
    pub td: (Def, Nic),
}
impl Hold2 {
    pub fn make(v: i64) -> Hold2 {
        Hold2 { c: Cln::make(v), oc: Cln::maybe(v), om: Mov::maybe(v + 1), rd: Def::result(v), rn: Ok(Nic::make(v)), ru: if v % 2 == 0 { Ok(()) } else { Err(Nic::make(v)) }, rb: if v % 2 == 0 { Ok(Own::make(v)) } else { Err(v as u8) }, td: (Def::make(v), Nic::make(v)) }
    }
}
