use check_ccstd::crubit_cc_std_internal::std_allocator::{cpp_new, shared_weak_count};
use check_ccstd::env::*;
use check_ccstd::std::{shared_ptr, unique_ptr, virtual_unique_ptr};
use simkit::track::*;
use simkit::{ev, Caught, Check, Node, Rng};
use std::ffi::c_void;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

extern "C" {
    fn cxx_add_shared(c: *mut c_void);
    fn cxx_release_shared(c: *mut c_void);
    fn cxx_add_weak(c: *mut c_void);
    fn cxx_release_weak(c: *mut c_void);
    fn cxx_lock(c: *mut c_void) -> bool;
    fn cxx_make_shared(tag: i64, owner: u64, p: *mut *mut Val, c: *mut *mut c_void);
}

// ------------------------------------------------------------------ the model of ownership

/// One managed object with its control block.
#[derive(Default, Clone, Debug)]
struct Own {
    /// Handles that certainly hold a strong reference.
    held: i64,
    /// Operations in flight that may or may not already (or still) count.
    flight: i64,
    /// Owners beside the control block (an Arc kept by the caller).
    ext: i64,
    destroyed: u32,
    deleter: u32,
    has_deleter: bool,
    null: bool,
    leaked: bool,
}
static MODEL: Mutex<Vec<Own>> = Mutex::new(Vec::new());
fn own<T>(o: usize, f: impl FnOnce(&mut Own) -> T) -> T {
    let _p = simkit::pause();
    let mut m = MODEL.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut m[o])
}
fn new_own() -> usize {
    let _p = simkit::pause();
    let mut m = MODEL.lock().unwrap_or_else(|e| e.into_inner());
    m.push(Own::default());
    m.len() - 1
}
fn gain(o: usize) {
    own(o, |w| w.held += 1)
}
/// A strong reference is about to be given up.
fn lose(o: usize) {
    own(o, |w| {
        w.held -= 1;
        w.flight += 1;
    })
}
fn landed(o: usize) {
    own(o, |w| {
        w.flight -= 1;
        // Whoever still is in flight may be the one to destroy it.
        if w.held == 0 && w.ext == 0 && w.flight == 0 && w.destroyed != 1 && !w.leaked && !w.null {
            simkit::fail("not-destroyed", "the last owner is gone and the object was not destroyed");
        }
        if w.held == 0 && w.flight == 0 && w.has_deleter && w.deleter != 1 {
            simkit::fail("deleter-not-run", &format!("the last owner is gone and the deleter ran {} times", w.deleter));
        }
    })
}

// ------------------------------------------------------------------ the managed value

#[repr(C)]
pub struct Sub {
    tag: i64,
    owner: u64,
}
#[repr(C)]
pub struct Val {
    id: u64,
    tag: i64,
    owner: u64,
    sub: Sub,
    next: Option<Box<(usize, shared_ptr<Val>)>>,
    _pad: u64,
}
impl Val {
    fn new(owner: usize, tag: i64, at: usize) -> Val {
        Val { id: obj_new(at), tag, owner: owner as u64, sub: Sub { tag: tag + 1, owner: owner as u64 }, next: None, _pad: 0 }
    }
}
fn destroyed(v: &mut Val) {
    obj_drop(v.id, v as *const Val as usize);
    own(v.owner as usize, |w| {
        w.destroyed += 1;
        if w.held > 0 || w.ext > 0 {
            simkit::fail("destroyed-early", &format!("the object was destroyed while {} owners remain", w.held + w.ext));
        }
    });
    simkit::sched::yield_point("destroying");
    if let Some(b) = v.next.take() {
        let (o, p) = *b;
        lose(o);
        drop(p);
        landed(o);
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        destroyed(self)
    }
}
#[no_mangle]
extern "C" fn sim_destroyed(v: *mut Val) {
    destroyed(unsafe { &mut *v })
}

/// A token inside a custom deleter: the deleter itself must also be dropped exactly once.
struct Token(u64);
impl Drop for Token {
    fn drop(&mut self) {
        obj_drop(self.0, 0)
    }
}

// ------------------------------------------------------------------ handles

enum Hd {
    Val(shared_ptr<Val>),
    Sub(shared_ptr<Sub>),
    /// A C++ std::shared_ptr: pointer and control block.
    Cxx(*mut Val, *mut c_void, bool),
    Weak(*mut Val, *mut c_void),
    Ext(Arc<Val>),
}
unsafe impl Send for Hd {}
/// A handle and which object it belongs to (None: null).
type Slot = Option<(Hd, Option<usize>)>;

const NS: usize = 4;

fn drop_slot(s: &mut Slot) {
    let Some((h, o)) = s.take() else { return };
    match (&h, o) {
        (Hd::Weak(..), _) => {}
        (Hd::Ext(_), Some(o)) => own(o, |w| {
            w.ext -= 1;
            w.flight += 1
        }),
        (_, Some(o)) => lose(o),
        _ => {}
    }
    let weak = matches!(h, Hd::Weak(..));
    match h {
        Hd::Cxx(_, c, _) => unsafe { cxx_release_shared(c) },
        Hd::Weak(_, c) => unsafe { cxx_release_weak(c) },
        h => drop(h),
    }
    if let (Some(o), false) = (o, weak) {
        landed(o)
    }
}

fn look(p: *const Val, o: Option<usize>, what: &str) {
    let Some(o) = o else {
        simkit::check!(p.is_null(), "null-not-null", "{what}: a null handle gives a pointer");
        return;
    };
    if own(o, |w| w.null) {
        simkit::check!(p.is_null(), "wrong-object", "{what}: a handle made from null gives a pointer");
        return;
    }
    if p.is_null() {
        simkit::check!(false, "lost-object", "{what}: an owning handle gives null");
        return;
    }
    if alloc_contains(p as usize) == Some(false) {
        simkit::check!(false, "dangling", "{what}: an owning handle points into freed memory");
        return;
    }
    let v = unsafe { &*p };
    obj_read(v.id, p as usize);
    simkit::check!(v.owner as usize == o && v.sub.owner as usize == o && v.sub.tag == v.tag + 1, "wrong-object", "{what}: the handle reaches another object");
}

fn count_ok(o: Option<usize>, n: usize, alone: bool) {
    match o {
        None => simkit::check!(n == 0, "use-count", "a null handle reports {n} owners"),
        Some(o) => own(o, |w| {
            let (lo, hi) = (w.held, w.held + w.flight);
            let ok = if alone { n as i64 == w.held } else { (1..=hi.max(1)).contains(&(n as i64)) };
            simkit::check!(ok, "use-count", "use_count reports {n}, owners {lo}..{hi}");
        }),
    }
}

struct Th {
    s: Vec<Slot>,
    alone: bool,
    me: usize,
}
static MAIL: Mutex<Vec<Vec<Slot>>> = Mutex::new(Vec::new());
fn mail<T>(f: impl FnOnce(&mut Vec<Vec<Slot>>) -> T) -> T {
    let _p = simkit::pause();
    f(&mut MAIL.lock().unwrap_or_else(|e| e.into_inner()))
}

fn share(th: &mut Th, op: &Node) {
    let (k, j, x) = (op.ix(0, NS), op.ix(1, NS), op.a(2));
    match op.op.as_str() {
        "make" => {
            drop_slot(&mut th.s[k]);
            let o = new_own();
            let kind = x.rem_euclid(8);
            gain(o);
            let t = op.a(3);
            let boxed = |o: usize| -> Box<Val> {
                let mut b = Box::new(Val::new(o, t, 0));
                // Its address is final: the managed object must never move again.
                let at = &*b as *const Val as usize;
                obj_drop(b.id, 0);
                b.id = obj_new(at);
                b
            };
            let h = match kind {
                0 => shared_ptr::new(Val::new(o, t, 0)),
                1 => shared_ptr::from_box(boxed(o)),
                2 => shared_ptr::from_pinned_box(Pin::from(boxed(o))),
                3 => shared_ptr::from_arc(Arc::new(Val::new(o, t, 0))),
                4 => {
                    let a = Arc::new(Val::new(o, t, 0));
                    own(o, |w| w.ext = 1);
                    drop_slot(&mut th.s[j]);
                    if j != k {
                        th.s[j] = Some((Hd::Ext(a.clone()), Some(o)));
                        simkit::check!(Arc::strong_count(&a) == 2, "arc-count", "an Arc and its copy count {}", Arc::strong_count(&a));
                        shared_ptr::from_arc(a)
                    } else {
                        own(o, |w| w.ext = 0);
                        shared_ptr::from_arc(a)
                    }
                }
                5 | 6 => {
                    let p = if kind == 6 {
                        own(o, |w| w.null = true);
                        std::ptr::null_mut()
                    } else {
                        Box::into_raw(boxed(o))
                    };
                    own(o, |w| w.has_deleter = true);
                    let tok = Token(obj_new(0));
                    let pp = p as usize;
                    unsafe {
                        shared_ptr::from_ptr_and_deleter(p, move |q| {
                            let _t = &tok;
                            obj_read(tok.0, 0);
                            simkit::check!(q as usize == pp, "deleter-argument", "the deleter got another pointer");
                            own(o, |w| {
                                w.deleter += 1;
                                if w.held > 0 {
                                    simkit::fail("deleted-early", &format!("the deleter ran while {} owners remain", w.held));
                                }
                            });
                            if !q.is_null() {
                                drop(Box::from_raw(q));
                            }
                        })
                    }
                }
                _ => unsafe {
                    let (mut p, mut c) = (std::ptr::null_mut(), std::ptr::null_mut());
                    cxx_make_shared(t, o as u64, &mut p, &mut c);
                    shared_ptr::from_raw_parts(p, c as *mut shared_weak_count)
                },
            };
            look(shared_ptr::as_ptr(&h), Some(o), "make");
            th.s[k] = Some((Hd::Val(h), Some(o)));
        }
        "null" => {
            drop_slot(&mut th.s[k]);
            th.s[k] = Some((Hd::Val(unsafe { shared_ptr::from_raw_parts(std::ptr::null(), std::ptr::null_mut()) }), None));
        }
        "link" => {
            // A new object that owns a handle to another one.
            if !matches!(th.s[j], Some((Hd::Val(_), Some(_)))) {
                return;
            }
            let Some((Hd::Val(p), Some(po))) = th.s[j].take() else { unreachable!() };
            let o = new_own();
            gain(o);
            let mut v = Val::new(o, op.a(3), 0);
            v.next = Some(Box::new((po, p)));
            drop_slot(&mut th.s[k]);
            th.s[k] = Some((Hd::Val(shared_ptr::new(v)), Some(o)));
        }
        "clone" => {
            if j == k {
                return;
            }
            drop_slot(&mut th.s[j]);
            let c = match &th.s[k] {
                Some((h, o)) => {
                    if let Some(o) = o {
                        if !matches!(h, Hd::Ext(_) | Hd::Weak(..)) {
                            own(*o, |w| w.flight += 1);
                        }
                    }
                    let (c, strong) = match h {
                        Hd::Val(p) => (Hd::Val(p.clone()), true),
                        Hd::Sub(p) => (Hd::Sub(p.clone()), true),
                        Hd::Cxx(p, c, s) => unsafe {
                            cxx_add_shared(*c);
                            (Hd::Cxx(*p, *c, *s), true)
                        },
                        Hd::Weak(p, c) => unsafe {
                            cxx_add_weak(*c);
                            (Hd::Weak(*p, *c), false)
                        },
                        Hd::Ext(_) => return,
                    };
                    if let (Some(o), true) = (o, strong) {
                        own(*o, |w| {
                            w.held += 1;
                            w.flight -= 1;
                        });
                    }
                    Some((c, *o))
                }
                None => None,
            };
            th.s[j] = c;
        }
        "drop" => drop_slot(&mut th.s[k]),
        "move" => th.s.swap(k, j),
        "project" => {
            if !matches!(th.s[k], Some((Hd::Val(_), _))) {
                return;
            }
            let Some((Hd::Val(p), o)) = th.s[k].take() else { unreachable!() };
            let boom = x == 1 && o.is_some_and(|o| !own(o, |w| w.null));
            if boom {
                lose(o.unwrap());
            }
            let r = catch(move || {
                shared_ptr::project(p, |v| {
                    simkit::sched::yield_point("projecting");
                    if boom {
                        simkit::inject_panic(PANIC);
                    }
                    &v.sub
                })
            });
            match r {
                Ok(s) => th.s[k] = Some((Hd::Sub(s), o)),
                Err(e) => {
                    simkit::check!(boom && e == Caught::Injected(PANIC), "unexpected-panic", "project: {e:?}");
                    simkit::probe("project-panic");
                    landed(o.unwrap());
                }
            }
        }
        "toraw" => {
            // Into a C++ handle: ownership moves.
            let t = th.s[k].take();
            th.s[k] = match t {
                Some((Hd::Val(p), o)) => {
                    let (p, c) = shared_ptr::into_raw_parts(p);
                    Some((Hd::Cxx(p as *mut Val, c as *mut c_void, false), o))
                }
                Some((Hd::Sub(p), o)) => {
                    let (p, c) = shared_ptr::into_raw_parts(p);
                    Some((Hd::Cxx(p as *mut Val, c as *mut c_void, true), o))
                }
                o => o,
            };
        }
        "release" => {
            if j == k {
                return;
            }
            if let Some((Hd::Val(p), o)) = &mut th.s[k] {
                let (q, c) = shared_ptr::release(p);
                let oo = o.take();
                simkit::check!(shared_ptr::is_null(p) && shared_ptr::use_count(p) == 0, "released-not-null", "a released handle still owns something");
                drop_slot(&mut th.s[j]);
                th.s[j] = Some((Hd::Cxx(q as *mut Val, c as *mut c_void, false), oo));
            }
        }
        "fromraw" => {
            if let Some((Hd::Cxx(p, c, sub), o)) = &th.s[k] {
                let (p, c, o, sub) = (*p, *c, *o, *sub);
                th.s[k] = Some((
                    if sub {
                        Hd::Sub(unsafe { shared_ptr::from_raw_parts(p as *const Sub, c as *mut shared_weak_count) })
                    } else {
                        Hd::Val(unsafe { shared_ptr::from_raw_parts(p, c as *mut shared_weak_count) })
                    },
                    o,
                ));
            }
        }
        "weak" => {
            if j == k {
                return;
            }
            if let Some((Hd::Cxx(p, c, false), o)) = &th.s[k] {
                let (p, c, o) = (*p, *c, *o);
                drop_slot(&mut th.s[j]);
                // The handle in k keeps the block alive meanwhile.
                unsafe { cxx_add_weak(c) };
                th.s[j] = Some((Hd::Weak(p, c), o));
            }
        }
        "lock" => {
            if j == k {
                return;
            }
            if let Some((Hd::Weak(p, c), o)) = &th.s[k] {
                let (p, c, o) = (*p, *c, *o);
                drop_slot(&mut th.s[j]);
                if let Some(o) = o {
                    own(o, |w| w.flight += 1);
                }
                let got = unsafe { cxx_lock(c) };
                if let Some(o) = o {
                    own(o, |w| {
                        w.flight -= 1;
                        if got {
                            w.held += 1;
                        }
                        let dead = w.destroyed > 0 || w.deleter > 0;
                        if got && dead && w.ext == 0 {
                            simkit::fail("resurrected", "a weak handle became strong after the object was destroyed");
                        }
                        if !got && w.held > 0 && th.alone {
                            simkit::fail("lock-failed", "a weak handle could not be locked although an owner remains");
                        }
                    });
                }
                if got {
                    simkit::probe("weak-locked");
                    th.s[j] = Some((Hd::Cxx(p, c, false), o));
                }
            }
        }
        "get" => {
            if let Some((h, o)) = &th.s[k] {
                match h {
                    Hd::Val(p) => {
                        look(shared_ptr::as_ptr(p), *o, "get");
                        let r = shared_ptr::try_as_ref(p).map_or(std::ptr::null(), |r| r as *const Val);
                        simkit::check!(r == shared_ptr::as_ptr(p) && shared_ptr::is_null(p) == r.is_null(), "accessors", "as_ptr, try_as_ref and is_null disagree");
                        count_ok(*o, shared_ptr::use_count(p), th.alone);
                    }
                    Hd::Sub(p) => {
                        match (shared_ptr::try_as_ref(p), o) {
                            (Some(s), Some(o)) => {
                                simkit::check!(alloc_contains(s as *const Sub as usize) != Some(false) && s.owner as usize == *o, "wrong-object", "a projected handle reaches freed memory or another object");
                                let v = (s as *const Sub as usize - std::mem::offset_of!(Val, sub)) as *const Val;
                                look(v, Some(*o), "projected");
                            }
                            (None, None) => {}
                            (None, Some(o)) => simkit::check!(own(*o, |w| w.null), "lost-object", "a projected handle became null"),
                            (Some(_), None) => simkit::fail("null-not-null", "a null handle projected to an object"),
                        }
                        count_ok(*o, shared_ptr::use_count(p), th.alone);
                    }
                    Hd::Cxx(p, _, false) => look(*p, *o, "C++"),
                    Hd::Cxx(..) => {}
                    Hd::Weak(..) => {}
                    Hd::Ext(a) => look(&**a, *o, "Arc"),
                }
            }
        }
        "equal" => {
            if let (Some((Hd::Val(a), oa)), Some((Hd::Val(b), ob))) = (&th.s[k], &th.s[j]) {
                simkit::check!(shared_ptr::owner_equal(a, b) == (oa == ob), "owner-equal", "owner_equal is wrong");
            }
            if let (Some((Hd::Val(a), oa)), Some((Hd::Sub(b), ob))) = (&th.s[k], &th.s[j]) {
                simkit::check!(shared_ptr::owner_equal(a, b) == (oa == ob), "owner-equal", "owner_equal is wrong across types");
            }
        }
        "give" => {
            // Hand a strong handle to another simulated thread.
            let to = x.rem_euclid(3) as usize;
            if let Some(s) = th.s[k].take() {
                mail(|m| m[to].push(Some(s)));
            }
        }
        "take" => {
            drop_slot(&mut th.s[k]);
            let me = th.me;
            th.s[k] = mail(|m| m[me].pop()).flatten();
        }
        _ => {}
    }
}

fn thread_main(ops: Vec<Node>, me: usize, alone: bool, slots: Vec<Slot>) -> Vec<Slot> {
    let mut th = Th { s: slots, alone, me };
    for op in &ops {
        simkit::step();
        simkit::sched::yield_point("op");
        ev!("thread {me}: {} {:?}", op.op, op.args);
        share(&mut th, op);
        if simkit::failed() {
            break;
        }
        if alone {
            for k in 0..NS {
                share(&mut th, &simkit::node("get", &[k as i64]));
            }
        }
    }
    th.s
}

fn run_shared(case: &Node) {
    let n = case.kids.len().clamp(1, 3);
    MODEL.lock().unwrap_or_else(|e| e.into_inner()).clear();
    mail(|m| *m = (0..3).map(|_| vec![]).collect());
    let mut left: Vec<Vec<Slot>> = vec![];
    if n == 1 {
        let ops = simkit::pause();
        let v = case.kids.first().map(|t| t.kids.clone()).unwrap_or_default();
        drop(ops);
        left.push(thread_main(v, 0, true, (0..NS).map(|_| None).collect()));
    } else {
        let out: Arc<Mutex<Vec<Vec<Slot>>>> = Arc::new(Mutex::new(vec![]));
        let p = simkit::pause();
        // Thread 0's first operations run before the others start.
        let setup = case.kids[0].kids.iter().take(3).cloned().collect();
        drop(p);
        let mut s0 = thread_main(setup, 0, true, (0..NS).map(|_| None).collect());
        let p = simkit::pause();
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in (1..n).chain([0]) {
            let ops: Vec<Node> = case.kids[t].kids.iter().skip(if t == 0 { 3 } else { 0 }).cloned().collect();
            drop(simkit::pause());
            // The others start with copies of what thread 0 made.
            let mut mine: Vec<Slot> = vec![];
            if t == 0 {
                mine = std::mem::take(&mut s0);
            } else {
                for s in &s0 {
                    mine.push(match s {
                        Some((Hd::Val(p), o)) => {
                            if let Some(o) = o {
                                gain(*o);
                            }
                            Some((Hd::Val(p.clone()), *o))
                        }
                        _ => None,
                    });
                }
            }
            let out = out.clone();
            tasks.push(Box::new(move || {
                let left = thread_main(ops, t, false, mine);
                let _p = simkit::pause();
                out.lock().unwrap().push(left);
            }));
        }
        let rep = simkit::sched::run(&case.args, tasks);
        drop(p);
        if rep.switches > 1 {
            simkit::nontrivial();
        }
        simkit::fault("thread-switch");
        simkit::reached(rep.trace);
        for (t, e) in &rep.panics {
            simkit::check!(false, "unexpected-panic", "thread {t}: {e:?}");
        }
        let _p = simkit::pause();
        left = std::mem::take(&mut *out.lock().unwrap());
    }
    if simkit::failed() {
        std::mem::forget(left);
        return;
    }
    // Everything has settled: counts are exact now.
    for s in left.iter().flatten().flatten() {
        if let (Hd::Val(p), o) = s {
            look(shared_ptr::as_ptr(p), *o, "at the end");
            count_ok(*o, shared_ptr::use_count(p), true);
        }
    }
    for v in &mut left {
        for s in v {
            drop_slot(s);
        }
    }
    let posted = mail(|m| std::mem::take(m));
    for mut s in posted.into_iter().flatten() {
        drop_slot(&mut s);
    }
    drop(left);
    let m = MODEL.lock().unwrap_or_else(|e| e.into_inner());
    for (o, w) in m.iter().enumerate() {
        let want = !w.null as u32;
        simkit::check!(w.destroyed == want && w.deleter == w.has_deleter as u32, "destroy-count", "object {o} was destroyed {} times, its deleter ran {} times", w.destroyed, w.deleter);
        simkit::check!(w.held == 0 && w.flight == 0, "harness", "model not balanced: {w:?}");
    }
}

// ------------------------------------------------------------------ unique owners

#[repr(C)]
pub struct UObj {
    id: u64,
    tag: i64,
    pad: i64,
}
#[repr(C, align(64))]
pub struct UBig {
    o: UObj,
    more: [u8; 100],
}
impl Drop for UObj {
    fn drop(&mut self) {
        obj_drop(self.id, self as *const _ as usize);
        user_call("destructor");
    }
}
pub struct VBase(#[allow(dead_code)] [u64; 2]);
unsafe impl operator::Delete for VBase {
    unsafe fn delete(p: *mut VBase) {
        v_delete(p)
    }
}
extern "C" {
    fn u_new(big: i32, tag: i64, out: *mut c_void);
    fn u_reset(big: i32, p: *mut c_void);
    fn u_tag(p: *const c_void) -> i64;
    fn u_move(big: i32, d: *mut c_void, s: *mut c_void);
    fn u_swap(d: *mut c_void, s: *mut c_void);
    fn v_new(tag: i64, out: *mut c_void);
    fn v_reset(p: *mut c_void);
    fn v_move(d: *mut c_void, s: *mut c_void);
    fn v_delete(p: *mut VBase);
}
trait UTag {
    const BIG: i32;
    fn obj(&self) -> &UObj;
}
impl UTag for UObj {
    const BIG: i32 = 0;
    fn obj(&self) -> &UObj {
        self
    }
}
impl UTag for UBig {
    const BIG: i32 = 1;
    fn obj(&self) -> &UObj {
        &self.o
    }
}

fn run_unique<T: UTag + Unpin>(case: &Node) {
    let mut u: Vec<unique_ptr<T>> = (0..NS).map(|_| unsafe { unique_ptr::new(std::ptr::null_mut()) }).collect();
    let mut raw: Vec<*mut T> = vec![std::ptr::null_mut(); NS];
    let mut v: Vec<virtual_unique_ptr<VBase>> = (0..NS).map(|_| unsafe { virtual_unique_ptr::new(std::ptr::null_mut()) }).collect();
    let mut vt: Vec<Option<i64>> = vec![None; NS];
    let mut m: Vec<Option<i64>> = vec![None; NS];
    let mut rm: Vec<Option<i64>> = vec![None; NS];
    let b = T::BIG;
    for op in &case.kids {
        simkit::step();
        let (k, j, x) = (op.ix(0, NS), op.ix(1, NS), op.a(2));
        ev!("{} {:?}", op.op, op.args);
        let at = |u: &mut Vec<unique_ptr<T>>, i: usize| &mut u[i] as *mut _ as *mut c_void;
        match op.op.as_str() {
            "cxxnew" => unsafe {
                u_new(b, x, at(&mut u, k));
                m[k] = Some(x);
            },
            "drop" => {
                let had = m[k].is_some();
                fail_call(if op.a(3) == 1 { 1 } else { 0 });
                let r = catch(|| u[k] = unsafe { unique_ptr::new(std::ptr::null_mut()) });
                let f = fired();
                fail_call(0);
                m[k] = None;
                if f {
                    simkit::probe("destructor-panic");
                    simkit::check!(had && r == Err(Caught::Injected(PANIC)), "swallowed-failure", "a panicking destructor ended as {r:?}");
                    // Assignment completed? Then the slot holds null; if the language left the old words, forget them.
                    let w = &mut u[k] as *mut unique_ptr<T>;
                    unsafe { std::ptr::write(w, unique_ptr::new(std::ptr::null_mut())) };
                } else {
                    simkit::check!(r.is_ok(), "unexpected-panic", "drop: {r:?}");
                }
            }
            "cxxreset" => unsafe {
                u_reset(b, at(&mut u, k));
                m[k] = None;
            },
            "release" => {
                if raw[j].is_null() {
                    raw[j] = u[k].release();
                    simkit::check!(u[k].get().is_null(), "released-not-null", "released unique_ptr is not null");
                    rm[j] = m[k].take();
                }
            }
            "adopt" => {
                drop_u(&mut u, &mut m, k);
                u[k] = unsafe { unique_ptr::new(std::mem::replace(&mut raw[j], std::ptr::null_mut())) };
                m[k] = rm[j].take();
            }
            "rustnew" => unsafe {
                drop_u(&mut u, &mut m, k);
                let p = cpp_new(std::mem::size_of::<T>(), std::mem::align_of::<T>()) as *mut UObj;
                p.write(UObj { id: obj_new(p as usize), tag: x, pad: 0 });
                u[k] = unique_ptr::new(p as *mut T);
                m[k] = Some(x);
            },
            "cxxmove" => unsafe {
                if k != j {
                    u_move(b, at(&mut u, k), at(&mut u, j));
                    m[k] = m[j].take();
                }
            },
            "cxxswap" => unsafe {
                u_swap(at(&mut u, k), at(&mut u, j));
                m.swap(k, j);
            },
            "swap" => {
                u.swap(k, j);
                m.swap(k, j);
            }
            "mutate" => {
                if let Some(t) = u[k].as_mut() {
                    let t = t as *mut T as *mut UObj;
                    unsafe { (*t).tag = x };
                    m[k] = Some(x);
                }
            }
            "vnew" => unsafe {
                v_new(x, &mut v[k] as *mut _ as *mut c_void);
                vt[k] = Some(x);
            },
            "vdrop" => {
                v[k] = unsafe { virtual_unique_ptr::new(std::ptr::null_mut()) };
                vt[k] = None;
            }
            "vreset" => unsafe {
                v_reset(&mut v[k] as *mut _ as *mut c_void);
                vt[k] = None;
            },
            "vrelease" => {
                let p = v[k].release();
                simkit::check!(v[k].get().is_null(), "released-not-null", "released virtual_unique_ptr is not null");
                let t = vt[k].take();
                drop(std::mem::replace(&mut v[j], unsafe { virtual_unique_ptr::new(p) }));
                vt[j] = t;
            }
            "vmove" => unsafe {
                if k != j {
                    let s = &mut v[j] as *mut _ as *mut c_void;
                    v_move(&mut v[k] as *mut _ as *mut c_void, s);
                    vt[k] = vt[j].take();
                }
            },
            _ => {}
        }
        let mut alive = 0;
        for i in 0..NS {
            let p = u[i].get();
            simkit::check!(p.is_null() == m[i].is_none(), "lost-object", "unique_ptr {i} is null: {}, expected {:?}", p.is_null(), m[i]);
            if simkit::failed() {
                break;
            }
            if let Some(t) = m[i] {
                alive += 1;
                let o = u[i].as_ref().map(|r| r.obj()).unwrap();
                obj_read(o.id, o as *const _ as usize);
                simkit::check!(o.tag == t, "wrong-object", "unique_ptr {i} holds {}, expected {t}", o.tag);
                let pin = u[i].as_pin().map(|p| &*p as *const T as usize);
                simkit::check!(pin == Some(p as usize), "accessors", "get and as_pin disagree");
                let t2 = unsafe { u_tag(at(&mut u, i)) };
                simkit::check!(t2 == t, "other-side", "C++ sees {t2} instead of {t}");
            } else {
                simkit::check!(u[i].as_ref().is_none() && u[i].as_pin().is_none(), "null-not-null", "a null unique_ptr gives a reference");
            }
            alive += rm[i].is_some() as usize + vt[i].is_some() as usize;
            simkit::check!(v[i].get().is_null() == vt[i].is_none(), "lost-object", "virtual_unique_ptr {i} expected {:?}", vt[i]);
        }
        let live = obj_live();
        simkit::check!(live.len() == alive, "destroy-count", "{} objects alive, {alive} owned", live.len());
        simkit::check!(cpp_live() == alive, "memory-count", "{} C++ blocks allocated, {alive} objects owned", cpp_live());
        simkit::reached(simkit::hash_bytes(m.iter().chain(&rm).chain(&vt).fold(0, |a, x| a * 2 + x.is_some() as u64), op.op.as_bytes()));
        if simkit::failed() {
            std::mem::forget((u, v));
            return;
        }
    }
    for k in 0..NS {
        if !raw[k].is_null() {
            u.push(unsafe { unique_ptr::new(raw[k]) });
        }
    }
    drop((u, v));
    simkit::check!(obj_live().is_empty() && cpp_live() == 0, "never-destroyed", "{} objects, {} blocks left", obj_live().len(), cpp_live());
}
fn drop_u<T>(u: &mut [unique_ptr<T>], m: &mut [Option<i64>], k: usize) {
    u[k] = unsafe { unique_ptr::new(std::ptr::null_mut()) };
    m[k] = None;
}

// ------------------------------------------------------------------ cases

const SH: &[&str] = &["make", "null", "link", "clone", "drop", "move", "project", "toraw", "release", "fromraw", "weak", "lock", "get", "equal", "give", "take"];
const UN: &[&str] = &["cxxnew", "drop", "cxxreset", "release", "adopt", "rustnew", "cxxmove", "cxxswap", "swap", "mutate", "vnew", "vdrop", "vreset", "vrelease", "vmove"];

fn shared_op(r: &mut Rng, w: &[u64], boom: u64) -> Node {
    let o = SH[r.weighted(w)];
    let x = match o {
        "project" => (r.below(6) < boom) as i64,
        "make" => r.range(0, 7),
        _ => r.range(0, 2),
    };
    simkit::node(o, &[r.range(0, NS as i64 - 1), r.range(0, NS as i64 - 1), x, r.range(1, 99)])
}

fn generate(r: &mut Rng, _: u64) -> Node {
    match r.below(4) {
        0 => {
            let n = r.range(3, 25);
            let w: Vec<u64> = UN.iter().map(|_| *r.pick(&[0, 1, 2, 4])).collect();
            let boom = r.below(3);
            let ops = (0..n)
                .map(|_| {
                    let o = UN[r.weighted(&w)];
                    simkit::node(o, &[r.range(0, NS as i64 - 1), r.range(0, NS as i64 - 1), r.range(1, 99), (r.below(4) < boom) as i64])
                })
                .collect();
            simkit::tree("unique", &[r.range(0, 1)], ops)
        }
        1 => {
            let n = r.range(3, 30);
            let w: Vec<u64> = SH.iter().map(|_| *r.pick(&[0, 1, 2, 4])).collect();
            let boom = r.below(4);
            let mut ops: Vec<Node> = vec![simkit::node("make", &[0, 1, r.range(0, 7), 1])];
            ops.extend((0..n).map(|_| shared_op(r, &w, boom)));
            simkit::tree("shared", &[], vec![simkit::tree("t", &[], ops)])
        }
        _ => {
            let t = r.range(2, 3);
            let mut w: Vec<u64> = SH.iter().map(|_| *r.pick(&[0, 1, 2, 4])).collect();
            w[3] += 1;
            w[4] += 2;
            let boom = r.below(3);
            let dens = r.range(1, 6) as u64;
            let sched: Vec<i64> = (0..r.range(5, 60)).map(|_| if r.chance(1, dens) { r.range(1, 2) } else { 0 }).collect();
            let ths = (0..t)
                .map(|k| {
                    let mut ops = vec![];
                    if k == 0 {
                        for s in 0..3 {
                            ops.push(simkit::node("make", &[s, 3, r.range(0, 7), s]));
                        }
                    }
                    for _ in 0..r.range(1, 7) {
                        ops.push(shared_op(r, &w, boom));
                    }
                    simkit::tree("t", &[], ops)
                })
                .collect();
            simkit::tree("shared", &sched, ths)
        }
    }
}

fn run(case: &Node) {
    reset();
    if case.kids.iter().map(|k| k.size()).sum::<usize>() > 1 {
        simkit::nontrivial();
    }
    alloc_begin();
    if case.op == "unique" {
        if case.a(0) == 1 {
            run_unique::<UBig>(case)
        } else {
            run_unique::<UObj>(case)
        }
    } else {
        run_shared(case)
    }
    if !simkit::failed() {
        simkit::check!(cpp_live() == 0, "leak", "{} C++ blocks never freed", cpp_live());
    }
    {
        let _p = simkit::pause();
        MODEL.lock().unwrap_or_else(|e| e.into_inner()).clear();
    }
    alloc_end(!simkit::failed());
}

fn main() {
    simkit::main(&Check {
        quick_cases: 150_000,
        rule: "a case is either a history of up to 30 operations on shared_ptr handles (8 ways of making one, copies, projections that may panic, hand-over to and from C++ strong and weak handles, nested ownership), or the same on 2-3 simulated threads that start with copies of the same handles, with the seeded schedule choosing who runs before every atomic step of the control block, or a history of operations on unique_ptr and virtual_unique_ptr from both languages with panicking destructors",
        states: "distinct interleavings (sequence of scheduling decisions) of the threaded cases, and (occupancy, operation) pairs of the unique cases",
        real: &["support/cc_std_impl/shared_ptr.rs", "support/cc_std_impl/unique_ptr.rs", "support/cc_std_impl/cpp_std_allocator.rs", "support/cc_std_impl/std_allocator.h", "std::unique_ptr of the installed libstdc++"],
        stubs: &["libc++'s std::__shared_weak_count: re-implemented with the same transitions and a scheduling point before each atomic step", "generated bindings of std_allocator.h: hand-written extern declarations", "C++ strong and weak handles: direct calls of the control block, as std::shared_ptr makes them", "operator new/delete: a checking allocator"],
        assumptions: &["interleavings are sequentially consistent; weak memory effects of the C++ library are not explored"],
        expected_probes: &["project-panic", "weak-locked", "destructor-panic"],
        ..Check::new("C15", generate, run)
    });
}
