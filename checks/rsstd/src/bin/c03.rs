//! C03: Rust futures polled from C++ through type-erased handles, with C++ wakers, compared with the
//! same futures polled directly with Rust wakers.
use check_rsstd::{reg_new, reg_refs, reg_reset, reg_unref, reg_val, Fenced};
use cpp_waker::rs_std::CppWaker;
use dyn_erased_future::DynErasedFuture;
use dyn_future::DynFuture;
use simkit::track::{alloc_begin, alloc_end};
use simkit::{catch, ev, node, tree, Caught, Check, Node, Rng, TrackAlloc};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

unsafe extern "C" {
    fn waker_new(cpp: i32, task: u64, shared: i32) -> *mut c_void;
    fn waker_op(cpp: i32, w: *mut c_void, what: i32) -> *mut c_void;
    fn waker_objects_now() -> i64;
    fn waker_reset();
    fn future_op(ty: i32, what: i32, f: *mut c_void, g: *mut c_void, w: *const c_void, out: *mut c_void) -> bool;
    fn future_size() -> usize;
}

const N: usize = 4;
const SLOTS: usize = 4;
const DEPTH: usize = 6;

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static FENCE: [Fenced; DEPTH] = std::array::from_fn(|_| Fenced::new());
    static Z_LIVE: Cell<i64> = const { Cell::new(0) };
}

// ---- wakers of the direct run, of the same two designs as those in C++
struct RsWaker {
    task: u64,
    shared: bool,
    refs: i64,
}
static VT: RawWakerVTable = RawWakerVTable::new(rs_clone, rs_wake, rs_wake_ref, rs_drop);
unsafe fn rs_clone(p: *const ()) -> RawWaker {
    let w = unsafe { &mut *(p as *mut RsWaker) };
    if !w.shared {
        return RawWaker::new(rs_waker(w.task, false), &VT);
    }
    w.refs += 1;
    sim_waker_ref(w.task, 1);
    RawWaker::new(p, &VT)
}
unsafe fn rs_wake(p: *const ()) {
    let t = unsafe { (*(p as *mut RsWaker)).task };
    unsafe { rs_drop(p) };
    sim_woken(t);
}
unsafe fn rs_wake_ref(p: *const ()) {
    sim_woken(unsafe { (*(p as *mut RsWaker)).task });
}
unsafe fn rs_drop(p: *const ()) {
    unsafe {
        let w = p as *mut RsWaker;
        sim_waker_ref((*w).task, -1);
        (*w).refs -= 1;
        if (*w).refs == 0 {
            drop(Box::from_raw(w));
        }
    }
}
fn rs_waker(task: u64, shared: bool) -> *const () {
    sim_waker_ref(task, 1);
    Box::into_raw(Box::new(RsWaker { task, shared, refs: 1 })) as *const ()
}

// ---- what both kinds of waker call
#[unsafe(no_mangle)]
extern "C" fn sim_woken(task: u64) {
    let inline = W.with_borrow_mut(|w| {
        let t = task as usize % N;
        w.woken[t] += 1;
        let l = format!("task {t} woken");
        w.log(l);
        w.inline && w.depth < 3
    });
    if inline {
        exec(&node("poll", &[task as i64, task as i64]));
    }
}
#[unsafe(no_mangle)]
extern "C" fn sim_waker_ref(task: u64, delta: i64) {
    W.with_borrow_mut(|w| w.refs[task as usize % N] += delta);
}

// ---- outputs
trait Out: Send + 'static {
    const TY: i32;
    fn make(val: u64) -> Self;
    fn val(&self) -> u64;
}
struct Unit;
impl Drop for Unit {
    fn drop(&mut self) {
        Z_LIVE.with(|z| z.set(z.get() - 1));
    }
}
impl Out for Unit {
    const TY: i32 = 0;
    fn make(_: u64) -> Self {
        Z_LIVE.with(|z| z.set(z.get() + 1));
        Unit
    }
    fn val(&self) -> u64 {
        0
    }
}
#[repr(C)]
struct Own(u64);
impl Drop for Own {
    fn drop(&mut self) {
        reg_unref(self.0);
    }
}
impl Out for Own {
    const TY: i32 = 1;
    fn make(val: u64) -> Self {
        Own(reg_new(val))
    }
    fn val(&self) -> u64 {
        reg_val(self.0)
    }
}
#[repr(C, align(32))]
struct Big(Own, [u64; 11]);
impl Out for Big {
    const TY: i32 = 2;
    fn make(val: u64) -> Self {
        Big(Own::make(val), std::array::from_fn(|i| val + i as u64))
    }
    fn val(&self) -> u64 {
        let v = self.0.val();
        if self.1 != std::array::from_fn(|i| v + i as u64) {
            simkit::fail("output-torn", "parts of an output are wrong");
        }
        v
    }
}
impl Out for u64 {
    const TY: i32 = 3;
    fn make(val: u64) -> Self {
        val
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl Out for () {
    const TY: i32 = 0;
    fn make(_: u64) -> Self {}
    fn val(&self) -> u64 {
        0
    }
}

// ---- the futures: they do what a list of steps says
struct Script<T> {
    id: u64,
    val: u64,
    h: u64,
    pos: usize,
    steps: Vec<Node>,
    done: bool,
    addr: usize,
    _t: std::marker::PhantomData<fn() -> T>,
}
impl<T: Out> Script<T> {
    fn new(op: &Node) -> Self {
        let id = W.with_borrow_mut(|w| {
            w.made += 1;
            w.made
        });
        let _p = simkit::pause();
        let mut op = op.clone();
        if op.ix(1, 3) != 0 && is_fatal(&op) {
            op.kids.retain(|s| s.op == "pend" && s.a(0).rem_euclid(8) == 6 && s.a(1) % 2 == 0);
        }
        Script { id, val: op.a(2) as u64, h: reg_new(id), pos: 0, steps: op.kids.clone(), done: false, addr: 0, _t: std::marker::PhantomData }
    }
}
fn is_fatal(op: &Node) -> bool {
    op.kids.iter().any(|s| s.op == "pend" && s.a(0).rem_euclid(8) == 6 && s.a(1) % 2 == 0)
}
fn log(l: String) {
    W.with_borrow_mut(|w| w.log(l));
}
impl<T: Out> Future for Script<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let me = unsafe { self.get_unchecked_mut() };
        let addr = me as *const Self as usize;
        simkit::check!(me.addr == 0 || me.addr == addr, "moved", "future #{} was moved after it had been polled", me.id);
        me.addr = addr;
        simkit::check!(reg_val(me.h) == me.id, "wrong-future", "future #{} holds what another one held", me.id);
        if me.done {
            simkit::fail("polled-after-completion", &format!("future #{} was polled after it completed", me.id));
        }
        log(format!("future #{} polled at step {}", me.id, me.pos));
        let Some(s) = me.steps.get(me.pos).filter(|s| s.op != "ondrop") else {
            me.done = true;
            return Poll::Ready(T::make(me.val));
        };
        let s = s.clone();
        me.pos += 1;
        let slot = s.ix(1, SLOTS);
        let store = |wk: Waker| {
            let old = W.with_borrow_mut(|w| w.stored[slot].replace(wk));
            drop(old);
        };
        match s.a(0).rem_euclid(8) {
            0 => store(cx.waker().clone()),
            1 => {
                let old = W.with_borrow_mut(|w| w.stored[slot].take());
                store(match old {
                    Some(o) if o.will_wake(cx.waker()) => o,
                    Some(mut o) => {
                        o.clone_from(cx.waker());
                        o
                    }
                    None => cx.waker().clone(),
                });
            }
            2 => cx.waker().wake_by_ref(),
            3 => cx.waker().clone().wake(),
            4 => {
                let a = cx.waker().clone();
                let b = a.clone();
                drop(a);
                store(b);
            }
            5 => {
                // Sent to another thread, and dropped or woken there after this poll.
                let a = cx.waker().clone();
                let b = a.clone();
                store(a);
                let old = W.with_borrow_mut(|w| w.stored[(slot + 1) % SLOTS].replace(b));
                drop(old);
            }
            6 => {
                if s.a(1) % 2 == 0 {
                    simkit::fault("poll-panic");
                    store(cx.waker().clone());
                    panic!("future panics");
                }
            }
            _ => (),
        }
        for o in &s.kids {
            exec(o);
        }
        log(format!("future #{} pending", me.id));
        Poll::Pending
    }
}
impl<T> Drop for Script<T> {
    fn drop(&mut self) {
        reg_unref(self.h);
        if self.done || simkit::failed() {
            return;
        }
        log(format!("future #{} dropped unfinished", self.id));
        let last = {
            let _p = simkit::pause();
            std::mem::take(&mut self.steps)
        };
        if let Some(s) = last.last().filter(|s| s.op == "ondrop") {
            for o in &s.kids {
                exec(o);
            }
        }
        let _p = simkit::pause();
        drop(last);
    }
}

/// A type-erased future of the direct run.
trait Direct {
    fn go(&mut self, cx: &mut Context<'_>, out: *mut u8) -> bool;
}
impl<T: Out> Direct for Pin<Box<Script<T>>> {
    fn go(&mut self, cx: &mut Context<'_>, out: *mut u8) -> bool {
        match self.as_mut().poll(cx) {
            Poll::Ready(v) => {
                if size_of::<T>() > 0 {
                    unsafe { (out as *mut T).write(v) };
                }
                true
            }
            Poll::Pending => false,
        }
    }
}

#[derive(Default)]
enum H {
    #[default]
    None,
    Busy,
    /// A C++ handle.
    Cc(Box<[u64; 2]>),
    /// Its stand-in in the direct run; nothing once it was moved from.
    Rs(Option<Box<dyn Direct>>),
    Dyn(DynFuture<'static>),
    RsDyn(Option<Pin<Box<dyn Future<Output = ()> + Send>>>),
}
#[derive(Default)]
struct Slot {
    h: H,
    ty: i32,
    val: u64,
    /// It gives its output no more.
    done: bool,
    /// Its target has been moved elsewhere.
    inert: bool,
    /// Polling it panics, which through C++ ends the process.
    fatal: bool,
}
#[derive(Default)]
struct World {
    direct: bool,
    inline: bool,
    shared: bool,
    depth: usize,
    slots: [Slot; N],
    busy_live: i64,
    woken: [u64; N],
    refs: [i64; N],
    stored: [Option<Waker>; SLOTS],
    roots: Vec<Root>,
    logs: Vec<String>,
    made: u64,
    polls: u64,
    ready: u64,
}
#[derive(Clone, Copy)]
struct Root {
    erased: *mut c_void,
    cpp: *mut c_void,
}
impl World {
    fn log(&mut self, l: String) {
        let _p = simkit::pause();
        if !self.direct {
            ev!("{l}");
        }
        self.logs.push(l);
    }
}

fn spawn<T: Out>(op: &Node) -> H {
    let s = Script::<T>::new(op);
    if W.with_borrow(|w| w.direct) {
        H::Rs(Some(Box::new(Box::pin(s))))
    } else {
        let mut room = Box::new([0u64; 2]);
        unsafe { (room.as_mut_ptr() as *mut DynErasedFuture<'static>).write(DynErasedFuture::new(s)) };
        H::Cc(room)
    }
}
fn destroy(s: Slot) {
    match s.h {
        H::Cc(mut b) => unsafe {
            future_op(s.ty, 2, b.as_mut_ptr() as _, std::ptr::null_mut(), std::ptr::null(), std::ptr::null_mut());
        },
        h => drop(h),
    }
}
fn live(s: &Slot) -> (i64, i64) {
    // Futures the handle surely owns, and those it may still own.
    match &s.h {
        H::None | H::Busy => (0, 0),
        _ if s.inert => (0, 0),
        H::Cc(_) | H::Rs(_) => (!s.done as i64, 1),
        H::Dyn(_) | H::RsDyn(_) => (!s.done as i64, !s.done as i64),
    }
}
fn take_out<T: Out>(p: *mut u8) -> u64 {
    if size_of::<T>() == 0 {
        return 0;
    }
    let v = unsafe { (p as *mut T).read() };
    v.val()
}

/// Polls what is in slot `i` (if anything) as task `t`. `how`: 0 in place, 3 passed by value.
fn poll(i: usize, t: usize, how: i32) {
    let (mut s, depth, direct, root) = {
        let mut go = false;
        let r = W.with_borrow_mut(|w| {
            let depth = w.depth;
            if depth >= DEPTH || matches!(w.slots[i].h, H::None | H::Busy) {
                return None;
            }
            let erased = matches!(w.slots[i].h, H::Cc(_) | H::Rs(_));
            if (erased && w.slots[i].done) || (!erased && how == 3) {
                return None;
            }
            go = true;
            w.depth += 1;
            w.polls += 1;
            let s = std::mem::replace(&mut w.slots[i], Slot { h: H::Busy, ..Slot::default() });
            w.busy_live += live(&s).0;
            Some((s, depth, w.direct, w.roots[t]))
        });
        match r {
            Some(x) => x,
            None => return,
        }
    };
    let was_live = live(&s).0;
    let size = match s.ty {
        0 => 0,
        1 => 8,
        2 => 96,
        _ => 8,
    };
    let area = FENCE.with(|f| f[depth].take(size, (s.val + i as u64) & 1 == 1, 0x5b));
    let before = area.bytes();
    let out = area.p;
    let mut gone = false;
    let res = match &mut s.h {
        H::Cc(b) => {
            if s.fatal && !s.inert {
                if depth == 0 && t == 1 {
                    let (exit, said) = simkit::proc::forked(|p| {
                        unsafe { future_op(s.ty, 0, b.as_mut_ptr() as _, std::ptr::null_mut(), root.erased, out as _) };
                        p.say("returned");
                    });
                    simkit::fault("poll-panic-through-C++");
                    simkit::check!(exit == simkit::proc::Exit::Signal(simkit::proc::SIGABRT), "panic-crossed", "a poll that panics, called from C++, ended with {exit:?} ({said}), not with an abort");
                }
                Ok(false)
            } else {
                gone = how == 3;
                Ok(unsafe { future_op(s.ty, how, b.as_mut_ptr() as _, std::ptr::null_mut(), root.erased, out as _) })
            }
        }
        H::Rs(d) => {
            if s.fatal && !s.inert {
                Ok(false)
            } else {
                let w = std::mem::ManuallyDrop::new(unsafe { Waker::new(root.erased as _, &VT) });
                let mut cx = Context::from_waker(&w);
                let r = match d {
                    Some(d) => d.go(&mut cx, out),
                    None => false,
                };
                if how == 3 {
                    gone = true;
                    drop(d.take());
                }
                Ok(r)
            }
        }
        H::Dyn(d) => catch(|| unsafe { d.poll(root.cpp as *const CppWaker) }),
        H::RsDyn(d) => {
            let w = std::mem::ManuallyDrop::new(unsafe { Waker::new(root.cpp as _, &VT) });
            let mut cx = Context::from_waker(&w);
            catch(|| match d {
                None => panic!("a completed or discarded future"),
                Some(f) => {
                    let r = f.as_mut().poll(&mut cx).is_ready();
                    if r {
                        *d = None;
                    }
                    r
                }
            })
        }
        _ => unreachable!(),
    };
    area.check("polling");
    let was_done = s.done;
    let was_inert = s.inert;
    let said = match &res {
        Ok(true) => {
            s.done = true;
            let v = match s.ty {
                0 => take_out::<Unit>(out),
                1 => take_out::<Own>(out),
                2 => take_out::<Big>(out),
                _ => take_out::<u64>(out),
            };
            let want = if size == 0 { 0 } else { s.val };
            simkit::check!(v == want && !was_inert, "wrong-output", "slot {i} completed with {v}, not {want}");
            format!("ready {v}")
        }
        Ok(false) => {
            simkit::check!(area.bytes() == before, "output-touched", "slot {i} is pending, and wrote to its output");
            "pending".into()
        }
        Err(Caught::Other(m)) if m.contains("completed or discarded") => {
            simkit::check!(was_done, "lost-future", "slot {i} holds a pending future and says it is completed or discarded");
            "refused".into()
        }
        Err(Caught::Other(m)) if m.contains("future panics") => "panicked".into(),
        Err(_) => {
            simkit::fail("unexpected-panic", &simkit::last_panic());
            "?".into()
        }
    };
    if gone {
        s.inert = true;
    }
    if let H::Dyn(d) = &s.h {
        simkit::check!(d.is_completed_or_discarded() == s.done, "wrong-status", "slot {i}: is_completed_or_discarded says {}", !s.done);
    }
    W.with_borrow_mut(|w| {
        w.depth -= 1;
        w.busy_live -= was_live;
        w.ready += s.done as u64;
        w.slots[i] = s;
        w.log(format!("poll slot {i} as task {t}: {said}"));
    });
    if !direct {
        simkit::reached(simkit::hash_bytes(depth as u64 * 8 + how as u64, format!("{said:.5}{was_done}{was_inert}").as_bytes()));
    }
}

fn exec(op: &Node) {
    if simkit::failed() {
        return;
    }
    let (i, j) = (op.ix(0, N), op.ix(1, N));
    let busy = |k: usize| W.with_borrow(|w| matches!(w.slots[k].h, H::Busy));
    let take = |k: usize| W.with_borrow_mut(|w| std::mem::take(&mut w.slots[k]));
    let put = |k: usize, s: Slot| {
        let old = W.with_borrow_mut(|w| std::mem::replace(&mut w.slots[k], s));
        destroy(old);
    };
    let direct = W.with_borrow(|w| w.direct);
    match op.op.as_str() {
        "spawn" => {
            let (kind, ty) = (op.ix(1, 3), op.ix(3, 4) as i32);
            if busy(i) {
                return;
            }
            let fatal = is_fatal(op);
            destroy(take(i));
            // Destroying may have run a nested operation which filled the slot.
            destroy(take(i));
            let ty = if kind == 0 { 0 } else { ty };
            let h = match (kind, ty) {
                (0, _) => {
                    let s = Script::<()>::new(op);
                    if direct {
                        H::RsDyn(Some(Box::pin(s)))
                    } else {
                        H::Dyn(DynFuture::from_future(s))
                    }
                }
                (_, 0) => spawn::<Unit>(op),
                (_, 1) => spawn::<Own>(op),
                (_, 2) => spawn::<Big>(op),
                _ => spawn::<u64>(op),
            };
            log(format!("spawn in slot {i}"));
            put(i, Slot { h, ty, val: op.a(2) as u64, fatal: fatal && kind != 0, ..Slot::default() });
        }
        "poll" => poll(i, j, 0),
        "byvalue" => {
            if W.with_borrow(|w| w.slots[i].fatal) {
                return;
            }
            poll(i, j, 3)
        }
        "move" | "around" => {
            if i == j || busy(i) || busy(j) {
                return;
            }
            destroy(take(j));
            if busy(i) || !W.with_borrow(|w| matches!(w.slots[j].h, H::None)) {
                return;
            }
            let mut s = take(i);
            let mut to = Slot { ty: s.ty, val: s.val, done: s.done, inert: s.inert, fatal: s.fatal, ..Slot::default() };
            match &mut s.h {
                H::Cc(b) => {
                    let mut room = Box::new([0u64; 2]);
                    unsafe { future_op(s.ty, if op.op == "move" { 1 } else { 4 }, b.as_mut_ptr() as _, room.as_mut_ptr() as _, std::ptr::null(), std::ptr::null_mut()) };
                    to.h = H::Cc(room);
                    s.inert = true;
                    s.done = false;
                }
                H::Rs(d) => {
                    to.h = H::Rs(d.take());
                    s.inert = true;
                    s.done = false;
                }
                // A Rust value moves and leaves nothing behind.
                h => {
                    to.h = std::mem::take(h);
                }
            }
            put(j, to);
            put(i, s);
            log(format!("move slot {i} to {j}"));
        }
        "drop" => {
            if busy(i) {
                return;
            }
            log(format!("drop slot {i}"));
            destroy(take(i));
        }
        "discard" => {
            if busy(i) {
                return;
            }
            let mut s = take(i);
            match &mut s.h {
                H::Dyn(d) => {
                    d.discard();
                    simkit::check!(d.is_completed_or_discarded(), "wrong-status", "a discarded future says it is not");
                    s.done = true;
                }
                H::RsDyn(d) => {
                    *d = None;
                    s.done = true;
                }
                _ => (),
            }
            log(format!("discard slot {i}"));
            destroy(take(i));
            put(i, s);
        }
        "unwrap" => {
            if busy(i) {
                return;
            }
            let mut s = take(i);
            s.h = match s.h {
                H::Dyn(d) => match Option::<Pin<Box<dyn Future<Output = ()> + Send>>>::from(d) {
                    Some(f) => {
                        simkit::check!(!s.done, "completed-twice", "slot {i} completed and still hands out its future");
                        H::Dyn(DynFuture::from_future(f))
                    }
                    None => {
                        simkit::check!(s.done, "lost-future", "slot {i} is pending and hands out no future");
                        H::Dyn(DynFuture::default())
                    }
                },
                H::RsDyn(Some(f)) => H::RsDyn(Some(Box::pin(f))),
                h => h,
            };
            put(i, s);
            log(format!("unwrap slot {i}"));
        }
        "wake" => {
            let (s, how, t) = (op.ix(0, SLOTS), op.ix(1, 6), op.ix(2, SLOTS));
            let Some(w) = W.with_borrow_mut(|w| w.stored[s].take()) else { return };
            log(format!("stored waker {s}: {how}"));
            let keep = |w: Waker| {
                let old = W.with_borrow_mut(|x| x.stored[s].replace(w));
                drop(old);
            };
            match how {
                0 => {
                    w.wake_by_ref();
                    keep(w);
                }
                1 => w.wake(),
                2 => drop(w),
                3 => {
                    let c = w.clone();
                    keep(w);
                    let old = W.with_borrow_mut(|x| x.stored[t].replace(c));
                    drop(old);
                }
                4 => {
                    let c = w.clone();
                    c.wake();
                    keep(w);
                }
                _ => {
                    // Taken apart and put together again.
                    let (p, v) = (w.data(), w.vtable());
                    std::mem::forget(w);
                    keep(unsafe { Waker::new(p, v) });
                }
            }
        }
        // The executor, in C++, uses its own waker through the same functions as Rust.
        "own" => {
            let (t, how, cpp) = (i, op.ix(1, 3), op.ix(2, 2) as i32);
            let r = W.with_borrow(|w| w.roots[t]);
            log(format!("executor: waker of task {t}: {how}"));
            let p = if cpp == 1 { r.cpp } else { r.erased };
            if direct {
                let w = std::mem::ManuallyDrop::new(unsafe { Waker::new(p as _, &VT) });
                match how {
                    0 => drop((*w).clone()),
                    1 => (*w).clone().wake(),
                    _ => w.wake_by_ref(),
                }
            } else {
                unsafe {
                    match how {
                        0 => drop(waker_op(cpp, waker_op(cpp, p, 0), 3)),
                        1 => drop(waker_op(cpp, waker_op(cpp, p, 0), 1)),
                        _ => drop(waker_op(cpp, p, 2)),
                    }
                }
            }
        }
        _ => run_woken(),
    }
    if simkit::failed() {
        return;
    }
    W.with_borrow_mut(|w| {
        let refs = w.refs;
        w.log(format!("references {refs:?}"));
    });
}
/// Polls every task that was woken, until nobody is.
fn run_woken() {
    for _ in 0..64 {
        let Some(t) = W.with_borrow_mut(|w| {
            let t = (0..N).find(|t| w.woken[*t] > 0)?;
            w.woken[t] = 0;
            Some(t)
        }) else {
            return;
        };
        poll(t, t, 0);
        if simkit::failed() {
            return;
        }
    }
}
fn check_live(after: &str) {
    let (lo, hi) = W.with_borrow(|w| w.slots.iter().fold((w.busy_live, w.busy_live), |(a, b), s| (a + live(s).0, b + live(s).1)));
    let have = reg_refs();
    simkit::check!(have >= lo, "future-lost", "after {after}: {have} futures exist, {lo} handles own one");
    simkit::check!(have <= hi, "future-leak", "after {after}: {have} futures and outputs exist, at most {hi} are owned");
    let z = Z_LIVE.with(|z| z.get());
    simkit::check!(z == 0, "output-leak", "after {after}: {z} outputs without data exist");
}

fn world(case: &Node, direct: bool) -> Option<Vec<String>> {
    reg_reset();
    Z_LIVE.with(|z| z.set(0));
    let shared = case.a(0) & 1 == 1;
    W.with_borrow_mut(|w| *w = World { direct, shared, inline: case.a(0) & 2 == 2, ..World::default() });
    for t in 0..N as u64 {
        let r = if direct {
            Root { erased: rs_waker(t, shared) as _, cpp: rs_waker(t, shared) as _ }
        } else {
            unsafe { Root { erased: waker_new(0, t, shared as i32), cpp: waker_new(1, t, shared as i32) } }
        };
        W.with_borrow_mut(|w| w.roots.push(r));
    }
    for op in &case.kids {
        if !direct {
            simkit::step();
        }
        exec(op);
        check_live(&op.op);
        if simkit::failed() {
            return None;
        }
    }
    // Everybody who is waiting is woken, until nobody waits or nothing changes.
    for _ in 0..12 {
        for s in 0..SLOTS {
            exec(&node("wake", &[s as i64, 1]));
        }
        run_woken();
        check_live("waking everybody");
        if simkit::failed() {
            return None;
        }
    }
    for i in 0..N {
        exec(&node("drop", &[i as i64]));
    }
    for _ in 0..4 {
        for i in 0..N {
            // What dropping a future did may have left more behind.
            exec(&node("drop", &[i as i64]));
            exec(&node("wake", &[i as i64, 2]));
        }
    }
    check_live("the end");
    if simkit::failed() {
        return None;
    }
    let (refs, roots) = W.with_borrow(|w| (w.refs, w.roots.clone()));
    simkit::check!(refs == [2; N], "waker-refs", "at the end the references to the wakers are {refs:?}, not 2 each");
    W.with_borrow_mut(|w| w.depth = DEPTH);
    for r in roots {
        if direct {
            unsafe {
                rs_drop(r.erased as _);
                rs_drop(r.cpp as _);
            }
        } else {
            unsafe {
                waker_op(0, r.erased, 3);
                waker_op(1, r.cpp, 3);
            }
        }
    }
    if !direct {
        let n = unsafe { waker_objects_now() };
        simkit::check!(n == 0, "waker-leak", "{n} wakers were never released");
    }
    Some(W.with_borrow_mut(|w| std::mem::take(&mut w.logs)))
}
fn run(case: &Node) {
    FENCE.with(|_| ());
    unsafe { waker_reset() };
    let want = world(case, true);
    alloc_begin();
    let got = world(case, false);
    let (polls, ready) = W.with_borrow(|w| (w.polls, w.ready));
    let old = W.with_borrow_mut(std::mem::take);
    if simkit::failed() {
        std::mem::forget(old);
    } else {
        drop(old);
    }
    if let (Some(want), Some(got)) = (&want, &got) {
        for k in 0..want.len().max(got.len()) {
            if want.get(k) != got.get(k) {
                let _p = simkit::pause();
                simkit::fail("diverged", &format!("at event {k}: {:?}; polled directly: {:?}", got.get(k), want.get(k)));
                break;
            }
        }
    }
    drop(got);
    alloc_end(!simkit::failed());
    unsafe { waker_reset() };
    if polls > 2 && ready > 0 {
        simkit::nontrivial();
    }
}

fn op(r: &mut Rng, deep: u32) -> Node {
    let (i, j) = (r.range(0, N as i64 - 1), r.range(0, N as i64 - 1));
    match r.weighted(&[if deep < 2 { 6 } else { 0 }, 9, 2, 3, 2, 2, 1, 1, 6, 2, 4]) {
        0 => {
            let mut kids = vec![];
            for _ in 0..r.range(0, 4) {
                let mut inner = vec![];
                if r.chance(1, 5) {
                    for _ in 0..r.range(1, 2) {
                        inner.push(op(r, deep + 1));
                    }
                }
                kids.push(tree("pend", &[if r.chance(1, 12) { 6 } else { r.range(0, 5) }, r.range(0, SLOTS as i64 - 1)], inner));
            }
            if r.chance(1, 6) {
                let inner = vec![op(r, deep + 1)];
                kids.push(tree("ondrop", &[], inner));
            }
            tree("spawn", &[i, r.range(0, 2), r.range(0, 999), r.range(0, 3)], kids)
        }
        1 => node("poll", &[i, if r.chance(2, 3) { i } else { j }]),
        2 => node("byvalue", &[i, j]),
        3 => node("move", &[i, j]),
        4 => node("around", &[i, j]),
        5 => node("drop", &[i]),
        6 => node("discard", &[i]),
        7 => node("unwrap", &[i]),
        8 => node("wake", &[i, r.range(0, 5), j]),
        9 => node("own", &[i, r.range(0, 2), r.range(0, 1)]),
        _ => node("run", &[]),
    }
}
fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    for _ in 0..r.range(4, 26) {
        kids.push(op(r, 0));
    }
    tree("futures", &[r.range(0, 3)], kids)
}

fn main() {
    assert_eq!(unsafe { future_size() }, size_of::<DynErasedFuture<'static>>());
    simkit::main(&Check {
        quick_cases: 300_000,
        rule: "a case is a history over four handles of futures (type-erased handles driven from C++, or DynFuture) whose every step says what is done with the waker: polls as any task, also spurious, nested or by a waker that polls at once; wakes, clones and drops of wakers; moves, cancellation, panics while polling; run once directly in Rust and once across the boundary; non-trivial: more than two polls and a completion; distinct by the whole case",
        states: "distinct (nesting, way of polling, outcome, was complete, was moved from)",
        real: &["support/rs_std/dyn_erased_future.h", "support/rs_std/dyn_erased_future.rs", "support/rs_std/erased_future.rs", "support/rs_std/dyn_future.rs", "support/rs_std/waker.h", "support/rs_std/waker.cc", "support/rs_std/cpp_waker.h", "support/rs_std/cpp_waker.cc"],
        stubs: &["the executor and its wakers (counted or separate objects)", "the crate cpp_waker is an opaque type"],
        assumptions: &["tasks interleave at operations: the code under test keeps no state of its own between them", "a completed type-erased future is not polled (documented as undefined)"],
        expected_probes: &[],
        ..Check::new("C03", generate, run)
    })
}
