//! C21: C++ code that goes through Rust iterators and collections.
extern crate iters_impl;
use simkit::track::{alloc_begin, alloc_end, obj_drop, obj_live, obj_new, obj_read, obj_reset};
use simkit::{ev, node, Check, Node, Rng, TrackAlloc};
use std::cell::RefCell;
use std::collections::VecDeque;

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

unsafe extern "C-unwind" {
    fn sim_begin();
    fn sim_end();
    fn sim_adapter(kind: i32, what: i32, i: i32, j: i32, n: i64);
    fn sim_source(kind: i32, what: i32, i: i32, j: i32, v: i64, n: i64);
    fn sim_bag(kind: i32, what: i32, i: i32, j: i32, v: i64, n: i64);
}
thread_local! {
    static VALUES: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    /// What came out: values reported, and calls of `next`.
    static OUT: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}
const NEXT: i64 = 1 << 40;

fn fresh(v: i64) -> u64 {
    let _p = simkit::pause();
    let id = obj_new(0);
    VALUES.with_borrow_mut(|x| {
        x.resize(id as usize + 1, 0);
        x[id as usize] = v;
    });
    id
}
fn value(id: u64) -> i64 {
    let _p = simkit::pause();
    if obj_read(id, 0) { VALUES.with_borrow(|v| v[id as usize]) } else { -999 }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_new(v: i64) -> u64 {
    fresh(v)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_clone(id: u64) -> u64 {
    fresh(value(id))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_drop(id: u64) {
    let _p = simkit::pause();
    obj_drop(id, 0);
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_get(id: u64) -> i64 {
    value(id)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_tok_set(id: u64, v: i64) {
    let _p = simkit::pause();
    if obj_read(id, 0) {
        VALUES.with_borrow_mut(|x| x[id as usize] = v);
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_next(v: i64) {
    sim_out(NEXT + v)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sim_out(v: i64) {
    let _p = simkit::pause();
    OUT.with_borrow_mut(|o| {
        if o.len() > 5000 {
            panic!("endless iteration");
        }
        o.push(v)
    });
}

/// An iterator that C++ holds.
#[derive(Clone, Debug, PartialEq)]
enum It {
    Own { id: i64, items: VecDeque<i64> },
    Num { now: i64, stop: i64 },
    /// Another one, by its kind and number.
    Ptr(usize, usize),
    /// Items of a collection.
    Refs { id: i64, bag: (usize, usize), pos: usize },
}
/// What an adapter points to.
#[derive(Clone, Debug, PartialEq)]
enum Cur {
    End,
    Val(i64),
    Item(usize),
    /// Moved from.
    Gone,
}
#[derive(Clone, Debug, PartialEq)]
enum Held<T> {
    Dead,
    /// Moved from: may only be destroyed or assigned to.
    Spent,
    Live(T),
}
use Held::*;
type Ad = (It, Cur);
type Bag = (i64, Vec<i64>);

const ADAPTERS: [&str; 11] = ["ItC", "ItM", "Num", "ItC*", "ItM*", "Num*", "Fix*", "RefsC", "RefsM", "MutsC", "MutsM"];
const COPIES: [bool; 11] = [true, false, true, true, false, true, true, false, false, false, false];
const SOURCES: [&str; 4] = ["ItC", "ItM", "Num", "Fix"];
/// The kind of adapter that owns such a source, and the one that points to it.
const OWNING: [usize; 3] = [0, 1, 2];
const POINTING: [usize; 4] = [3, 4, 5, 6];

struct World {
    ads: Vec<[Held<Ad>; 3]>,
    sources: Vec<[Held<It>; 2]>,
    bags: [[Held<Bag>; 2]; 2],
    want: Vec<i64>,
}

impl World {
    fn items(&self, b: (usize, usize)) -> &Vec<i64> {
        match &self.bags[b.0][b.1] {
            Live(b) => &b.1,
            _ => panic!("a collection that is borrowed has gone"),
        }
    }
    /// One item of `it`.
    fn next(&mut self, it: &mut It) -> Cur {
        match it {
            It::Own { id, items } => {
                self.want.push(NEXT + *id);
                items.pop_front().map_or(Cur::End, Cur::Val)
            }
            It::Num { now, stop } => {
                self.want.push(NEXT + *now);
                if now < stop {
                    *now += 1;
                    Cur::Val(*now - 1)
                } else {
                    Cur::End
                }
            }
            It::Ptr(q, i) => {
                let Live(mut s) = std::mem::replace(&mut self.sources[*q][*i], Dead) else { panic!("an iterator that is pointed to has gone") };
                let c = self.next(&mut s);
                self.sources[*q][*i] = Live(s);
                c
            }
            It::Refs { id, bag, pos } => {
                self.want.push(NEXT + *id);
                if *pos < self.items(*bag).len() {
                    *pos += 1;
                    Cur::Item(*pos - 1)
                } else {
                    Cur::End
                }
            }
        }
    }
    fn val(&self, a: &Ad) -> Option<i64> {
        match (&a.1, &a.0) {
            (Cur::Val(v), _) => Some(*v),
            (Cur::Item(p), It::Refs { bag, .. }) => Some(self.items(*bag)[*p]),
            _ => None,
        }
    }
    /// Goes on to the end, or until `n` items were seen; `each` is what is reported of each item.
    fn go(&mut self, a: &mut Ad, mut n: i64, stop: bool, each: impl Fn(i64) -> Option<i64>) -> bool {
        while a.1 != Cur::End {
            if stop && n <= 0 {
                return false;
            }
            n -= 1;
            let v = self.val(a).unwrap();
            self.want.extend(each(v));
            a.1 = self.next(&mut a.0);
        }
        true
    }
    fn live(&self, k: usize, i: usize) -> Option<Ad> {
        match &self.ads[k][i] {
            Live(a) => Some(a.clone()),
            _ => None,
        }
    }
    fn adapter(&self, k: usize, what: i32, i: usize, j: usize, n: i64) {
        let _r = simkit::resume();
        unsafe { sim_adapter(k as i32, what, i as i32, j as i32, n) }
    }
    /// Destroys the adapters that satisfy `f`.
    fn release(&mut self, f: impl Fn(&It) -> bool) {
        for k in 0..ADAPTERS.len() {
            for i in 0..3 {
                if let Live(a) = &self.ads[k][i] {
                    if f(&a.0) {
                        self.adapter(k, 8, i, 0, 0);
                        self.ads[k][i] = Dead;
                    }
                }
            }
        }
    }
    fn release_ptrs(&mut self, q: usize, i: usize) {
        self.release(|t| *t == It::Ptr(q, i));
    }
    fn release_refs(&mut self, b: (usize, usize), all: bool) {
        for k in if all { 7..11 } else { 9..11 } {
            for i in 0..3 {
                if matches!(&self.ads[k][i], Live((It::Refs { bag, .. }, _)) if *bag == b) {
                    self.adapter(k, 8, i, 0, 0);
                    self.ads[k][i] = Dead;
                }
            }
        }
    }

    fn exec(&mut self, o: &Node) -> Option<()> {
        match o.op.as_str() {
            "ad" => self.exec_adapter(o.ix(0, 11), o.ix(1, 20) as i32, o.ix(2, 3), o.ix(3, 3), o.a(4).abs() % 8),
            "src" => self.exec_source(o.ix(0, 4), o.ix(1, 11) as i32, o.ix(2, 2), o.ix(3, 3), o.a(5).abs() % 100 + 1, o.a(4).abs() % 7),
            _ => self.exec_bag(o.ix(0, 2), o.ix(1, 12) as i32, o.ix(2, 2), o.ix(3, 3), o.a(5).abs() % 100 + 1, o.a(4).abs() % 7),
        }
    }

    fn exec_adapter(&mut self, k: usize, what: i32, i: usize, j: usize, n: i64) -> Option<()> {
        let was = self.ads[k][i].clone();
        // With items of their own, what is left after a move is unspecified.
        let plain = !matches!(k, 0 | 1 | 3 | 4 | 6);
        let mut to = was.clone();
        let mut other = None;
        match (what, &was) {
            (8, Spent | Live(_)) => to = Dead,
            (16, _) => (),
            (_, Live(a)) => {
                let mut a = a.clone();
                let known = a.1 != Cur::Gone;
                match what {
                    1 => self.want.push(self.val(&a)?),
                    2 | 3 => {
                        if a.1 == Cur::End {
                            return None;
                        }
                        if what == 2 {
                            a.1 = self.next(&mut a.0);
                            self.want.push(1);
                        } else {
                            a.1 = self.next(&mut a.0);
                        }
                        to = Live(a);
                    }
                    4 => {
                        let v = self.val(&a)?;
                        self.want.push(v);
                        if !plain {
                            a.1 = Cur::Gone;
                        }
                        to = Live(a);
                    }
                    5 => self.want.push(if a.1 == Cur::End { 2 } else { 1 }),
                    6 => {
                        if !COPIES[k] {
                            return None;
                        }
                        simkit::probe("copied");
                        other = Some(Live(a));
                    }
                    7 => {
                        if i == j {
                            return None;
                        }
                        other = Some(Live(a));
                        to = Spent;
                    }
                    9 | 11 | 12 if !known => return None,
                    9 => {
                        self.go(&mut a, n, true, Some);
                        to = Live(a);
                    }
                    10 if known => {
                        self.go(&mut a, 0, false, Some);
                        to = Spent;
                    }
                    11 => {
                        self.go(&mut a, n, true, |v| Some(v * 2));
                        to = Spent;
                    }
                    12 => {
                        if !self.go(&mut a, n, true, Some) {
                            self.want.push(-1);
                            simkit::fault("consumer-throws");
                            simkit::probe("consumer-throws");
                        }
                        to = Spent;
                    }
                    13 => {
                        let o = self.live(k, j)?;
                        if i != j {
                            other = Some(Live(a));
                            to = Live(o);
                        } else {
                            simkit::probe("swapped-with-itself");
                        }
                    }
                    14 if known => {
                        let mut all = vec![];
                        while a.1 != Cur::End {
                            all.push(self.val(&a).unwrap());
                            a.1 = self.next(&mut a.0);
                        }
                        self.want.extend(all);
                        to = Spent;
                    }
                    15 => (),
                    17 => {
                        if a.1 != Cur::End {
                            a.1 = self.next(&mut a.0);
                        }
                        to = Live(a);
                    }
                    18 if known && COPIES[k] => {
                        let mut h = 7i64;
                        while a.1 != Cur::End {
                            h = h.wrapping_mul(31).wrapping_add(self.val(&a).unwrap());
                            a.1 = self.next(&mut a.0);
                        }
                        self.want.push(h);
                        // What is pointed to was used up, but not this adapter.
                    }
                    19 => {
                        let (It::Refs { bag, .. }, Cur::Item(p), true) = (&a.0, &a.1, k >= 9) else { return None };
                        let Live(b) = &mut self.bags[bag.0][bag.1] else { unreachable!() };
                        b.1[*p] = n;
                        simkit::probe("item-changed");
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
        // What a pointing adapter leaves behind is as good as before, but nobody relies on it.
        self.adapter(k, what, i, j, n);
        self.ads[k][i] = to;
        if let Some(x) = other {
            self.ads[k][j] = x;
        }
        Some(())
    }

    fn make(q: usize, v: i64, n: i64) -> It {
        match q {
            2 => It::Num { now: v, stop: v + n },
            _ => It::Own { id: v, items: (v..v + n).collect() },
        }
    }
    fn exec_source(&mut self, q: usize, what: i32, i: usize, j: usize, v: i64, n: i64) -> Option<()> {
        if q == 3 && !matches!(what, 1 | 3 | 5 | 7) {
            return None;
        }
        let was = self.sources[q][i].clone();
        let mut put: Option<(usize, Ad)> = None;
        let mut to = None;
        match (what, was) {
            (1, _) => {
                self.release_ptrs(q, i);
                to = Some(Live(World::make(q, v, n)));
            }
            (2, Live(mut s)) => {
                self.release_ptrs(q, i);
                to = Some(if q == 2 { Live(s.clone()) } else { Spent });
                let c = self.next(&mut s);
                put = Some((OWNING[q], (s, c)));
            }
            (3 | 4, Live(_)) => {
                let mut p = It::Ptr(q, i);
                let c = self.next(&mut p);
                put = Some((POINTING[q], (p, c)));
            }
            (5, Live(_)) => {
                let mut p = It::Ptr(q, i);
                let c = self.next(&mut p);
                self.looped((p, c), n, v);
            }
            (6, Live(mut s)) if q == 0 || q == 2 => {
                let c = self.next(&mut s);
                put = Some((OWNING[q], (s, c)));
            }
            (7, Live(_) | Spent) => {
                self.release_ptrs(q, i);
                to = Some(Dead);
            }
            (8, Live(_) | Spent) => {
                simkit::probe("source-replaced");
                to = Some(Live(World::make(q, v, n)));
            }
            (9, Live(mut s)) if q < 2 => {
                self.release_ptrs(q, i);
                let mut h = 7i64;
                while let Cur::Val(v) = self.next(&mut s) {
                    h = h.wrapping_mul(31).wrapping_add(v);
                }
                self.want.push(h);
                to = Some(Spent);
                simkit::probe("rest-in-rust");
            }
            (10, Live(_)) if q == 0 => self.want.push(1),
            _ => return None,
        }
        {
            let _r = simkit::resume();
            unsafe { sim_source(q as i32, what, i as i32, j as i32, v, n) };
        }
        if let Some(t) = to {
            self.sources[q][i] = t;
        }
        if let Some((k, a)) = put {
            self.ads[k][j] = Live(a);
        }
        Some(())
    }
    /// A loop that is left, or fails, at its `n`th item.
    fn looped(&mut self, mut a: Ad, n: i64, v: i64) {
        if !self.go(&mut a, n, true, Some) {
            if v % 2 != 0 {
                self.want.push(-1);
                simkit::fault("consumer-throws");
            }
            simkit::probe("loop-left");
        }
    }
    fn exec_bag(&mut self, q: usize, what: i32, i: usize, j: usize, v: i64, n: i64) -> Option<()> {
        let b = (q, i);
        let was = self.bags[q][i].clone();
        let mut put: Option<(usize, Ad)> = None;
        let mut to = None;
        match (&was, what) {
            (_, 1) | (Live(_) | Spent, 7 | 11) | (Live(_), 2 | 4 | 6 | 8 | 9) => self.release_refs(b, true),
            (Live(_), 3 | 5 | 10) => self.release_refs(b, false),
            _ => return None,
        }
        match (what, was) {
            (1 | 11, _) => to = Some(Live((v, (v..v + n).collect()))),
            (7, _) => to = Some(Dead),
            (2 | 8, Live((id, items))) => {
                let mut s = It::Own { id, items: items.into() };
                let c = self.next(&mut s);
                put = Some((q, (s, c)));
                to = Some(Spent);
                simkit::probe("into-iter");
            }
            (3 | 4 | 5 | 6, Live((id, _))) => {
                let mut s = It::Refs { id, bag: b, pos: 0 };
                let c = self.next(&mut s);
                match what {
                    3 => put = Some((7 + q, (s, c))),
                    4 => put = Some((9 + q, (s, c))),
                    _ => self.looped((s, c), n, v),
                }
            }
            (9, Live((id, mut items))) => {
                self.want.extend(vec![NEXT + id; items.len() + 1]);
                items.iter_mut().for_each(|x| *x += v);
                to = Some(Live((id, items)));
            }
            (10, Live((_, items))) => self.want.extend(items),
            _ => unreachable!(),
        }
        {
            let _r = simkit::resume();
            unsafe { sim_bag(q as i32, what, i as i32, j as i32, v, n) };
        }
        if let Some(t) = to {
            self.bags[q][i] = t;
        }
        if let Some((k, a)) = put {
            self.ads[k][j] = Live(a);
        }
        Some(())
    }
    fn state(&self) -> u64 {
        let mut h = 0u64;
        for (k, a) in self.ads.iter().enumerate() {
            let n = a.iter().filter(|x| matches!(x, Live(_))).count() as u64;
            let e = a.iter().filter(|x| matches!(x, Live((_, Cur::End)))).count() as u64;
            h = simkit::mix(h ^ (k as u64) << 32 ^ n << 8 ^ e);
        }
        for b in self.bags.iter().flatten() {
            h = simkit::mix(h ^ matches!(b, Live(_)) as u64);
        }
        h
    }
}

fn run(case: &Node) {
    obj_reset();
    VALUES.with_borrow_mut(|v| v.clear());
    OUT.with_borrow_mut(|o| o.clear());
    let mut w = World { ads: (0..11).map(|_| [Dead, Dead, Dead]).collect(), sources: (0..4).map(|_| [Dead, Dead]).collect(), bags: Default::default(), want: vec![] };
    alloc_begin();
    unsafe { sim_begin() };
    let mut done = 0;
    for o in &case.kids {
        let _p = simkit::pause();
        let did = simkit::catch(|| w.exec(o).is_some());
        let want = std::mem::take(&mut w.want);
        let got = OUT.with_borrow_mut(std::mem::take);
        match did {
            Ok(false) => continue,
            Ok(true) => (),
            Err(e) => simkit::fail("failed", &format!("{o:?}: {e:?}")),
        }
        done += 1;
        let show = |l: &[i64]| l.iter().map(|v| if *v >= NEXT / 2 { format!("next({})", v - NEXT) } else { v.to_string() }).collect::<Vec<_>>().join(" ");
        ev!("{} {:?}: {}", o.op, o.args, show(&got));
        let kind = if o.op == "ad" { ADAPTERS[o.ix(0, 11)] } else if o.op == "src" { SOURCES[o.ix(0, 4)] } else { "collection" };
        simkit::probe(&format!("{} {kind}", o.op));
        simkit::step();
        simkit::reached(w.state());
        simkit::check!(got == want, "wrong-items", "{} {kind} {:?}: {}, expected {}", o.op, o.args, show(&got), show(&want));
        if simkit::failed() {
            return alloc_end(false);
        }
    }
    unsafe { sim_end() };
    let _p = simkit::pause();
    OUT.with_borrow_mut(|o| o.clear());
    simkit::check!(obj_live().is_empty(), "leaked", "{} objects were not destroyed", obj_live().len());
    if done > 3 {
        simkit::nontrivial();
    }
    drop(w);
    drop(_p);
    alloc_end(!simkit::failed());
}

impl<T> Default for Held<T> {
    fn default() -> Self {
        Dead
    }
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    let q = r.range(0, 3);
    let many = r.chance(1, 2);
    let kinds: Vec<i64> = match q {
        0 => vec![0, 3, 7, 9],
        1 => vec![1, 4, 8, 10],
        2 => vec![2, 5],
        _ => vec![6],
    };
    for i in 0..r.range(3, 40) {
        let k = |r: &mut Rng, all: i64, own: i64| if many && r.chance(1, 2) { r.range(0, all) } else { own };
        let w = if i < 3 { r.weighted(&[0, 2, 2]) } else { r.weighted(&[6, 2, 2]) };
        kids.push(match w {
            0 => {
                let own = *r.pick(&kinds);
                node("ad", &[k(r, 10, own), r.range(1, 19), r.range(0, 2), r.range(0, 2), r.range(0, 6)])
            }
            1 => {
                let what = if i < 3 || r.chance(1, 4) { 1 } else { r.range(2, 10) };
                node("src", &[k(r, 3, q), what, r.range(0, 1), r.range(0, 2), r.range(0, 6), r.range(0, 99)])
            }
            _ => {
                let what = if i < 3 || r.chance(1, 4) { 1 } else { r.range(2, 11) };
                node("bag", &[k(r, 1, q.min(1)), what, r.range(0, 1), r.range(0, 2), r.range(0, 6), r.range(0, 99)])
            }
        });
    }
    simkit::tree("case", &[], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 3_000_000,
        rule: "a case is a history of up to 40 operations of C++ code on iterators, collections and adapters of them (owning, pointing to an iterator held elsewhere, borrowing from a collection): wrap, begin, dereference, advance, move items out, compare with the end, copy, move, swap, loops that are left or fail at any item, algorithms, views, into_iter, and the rest in Rust; non-trivial: more than three operations had something to do; distinct by the whole case",
        states: "distinct (adapters of each kind that are live and at their end, collections that are live)",
        real: &["cc_bindings_from_rs: the generated bindings of crate iters, by the built binary", "support/rs_std/iterator_adapter.h", "support/internal/slot.h", "support/bridge.h"],
        stubs: &["headers of core and alloc bindings: forward declarations", "the items and iterators are handles of a registry of live objects"],
        assumptions: &["clang 18 and libstdc++ stand for any compiler and library", "C++ code does not use an iterator beyond its end, or a collection while its items are borrowed", "what is left after a move is destroyed or assigned to, not used"],
        expected_probes: &["copied", "consumer-throws", "swapped-with-itself", "item-changed", "source-replaced", "rest-in-rust", "loop-left", "into-iter", "ad ItC", "ad ItM", "ad Num", "ad ItC*", "ad ItM*", "ad Num*", "ad Fix*", "ad RefsC", "ad RefsM", "ad MutsC", "ad MutsM"],
        ..Check::new("C21", generate, run)
    });
}
