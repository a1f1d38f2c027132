//! C04: callables shared by C++ and Rust, over histories of moves, calls and crossings.
use bridge_rust::{internal, transmute_abi, CrubitAbi, OptionAbi};
use check_rsstd::{reg_new, reg_refs, reg_reset, reg_unref, reg_val, Area, Fenced};
use dyn_callable_rs::{manager, DynCallableAbi, FunctionToCall};
use simkit::track::{alloc_begin, alloc_end};
use simkit::{catch, ev, node, tree, Caught, Check, Node, Rng, TrackAlloc};
use std::cell::{Cell, RefCell};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

type F0 = dyn Fn(u64, u64) -> u64 + Send + Sync;
type F1 = dyn FnMut(u64, u64) -> u64 + Send + Sync;
type F2 = dyn FnOnce(u64, u64) -> u64 + Send + Sync;

// The thunks, as the generator writes them.
#[unsafe(no_mangle)]
unsafe extern "C" fn invoke_0(f: *mut Box<F0>, a: u64, b: u64) -> u64 {
    (unsafe { &*f })(a, b)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn invoke_1(f: *mut Box<F1>, a: u64, b: u64) -> u64 {
    (unsafe { &mut *f })(a, b)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn invoke_2(f: *mut Box<F2>, a: u64, b: u64) -> u64 {
    (unsafe {
        core::ptr::replace(
            f,
            Box::new(|_, _| {
                core::unreachable!("Called FnOnce after it was moved");
            }),
        )
    })(a, b)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn manage_0(o: FunctionToCall, from: *mut Box<F0>, to: *mut Box<F0>) {
    unsafe { manager(o, from, to) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn manage_1(o: FunctionToCall, from: *mut Box<F1>, to: *mut Box<F1>) {
    unsafe { manager(o, from, to) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn manage_2(o: FunctionToCall, from: *mut Box<F2>, to: *mut Box<F2>) {
    unsafe { manager(o, from, to) }
}
unsafe extern "C" {
    fn callable_op(kind: i32, what: i32, i: u64, j: u64, x: u64, y: u64, buf: *mut u8) -> u64;
    fn callable_reset();
    fn callable_size() -> usize;
}

/// A target that captures nothing but is still destroyed.
struct Z;
thread_local! {
    static Z_LIVE: Cell<i64> = const { Cell::new(0) };
    static Z_CALLS: Cell<u64> = const { Cell::new(0) };
    static W: RefCell<World> = RefCell::new(World::default());
    static FENCE: (Fenced, Fenced) = (Fenced::new(), Fenced::new());
}
impl Z {
    fn new() -> Z {
        Z_LIVE.with(|z| z.set(z.get() + 1));
        Z
    }
    fn call(&self, a: u64, b: u64) -> u64 {
        Z_CALLS.with(|z| z.set(z.get() + 1));
        called(0, a, b);
        mix(7, a, b, 0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        Z_LIVE.with(|z| z.set(z.get() - 1));
    }
}
/// A target with state of its own.
struct T {
    h: u64,
    id: u64,
    big: [u64; 5],
    n: u64,
    inner: Vec<Node>,
    boom: bool,
}
impl T {
    fn call(&mut self, a: u64, b: u64) -> u64 {
        let n = self.n;
        self.n += 1;
        self.at(a, b, n)
    }
    fn at(&self, a: u64, b: u64, n: u64) -> u64 {
        if self.big != [self.id; 5] {
            simkit::fail("target-changed", "what a closure captured changed");
        }
        called(self.id, a, b);
        let v = reg_val(self.h);
        if self.boom {
            panic!("target panics");
        }
        for o in &self.inner {
            exec(o);
        }
        if self.big != [self.id; 5] {
            simkit::fail("target-changed", "what a closure captured changed while it ran");
        }
        mix(v, a, b, n)
    }
}
impl Drop for T {
    fn drop(&mut self) {
        reg_unref(self.h);
    }
}
fn mix(v: u64, a: u64, b: u64, n: u64) -> u64 {
    simkit::mix(v ^ a.wrapping_mul(3) ^ b.wrapping_mul(0x1_0000_0007) ^ (n << 40))
}
/// A call has arrived at target `id` (0: the one that captures nothing).
fn called(id: u64, a: u64, b: u64) {
    W.with_borrow_mut(|w| match w.expect.pop() {
        Some((i, x, y)) if i == id => simkit::check!((x, y) == (a, b), "bad-arguments", "target #{id} was called with ({a}, {b}), not ({x}, {y})"),
        Some((i, ..)) => simkit::fail("wrong-target", &format!("target #{id} was called instead of #{i}")),
        None => simkit::fail("unexpected-call", &format!("target #{id} was called by nobody")),
    })
}

enum Held {
    F(Box<F0>),
    M(Box<F1>),
    O(Box<F2>),
}
/// What a handle stands for.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
enum M {
    #[default]
    Empty,
    Has(u64),
    /// A call consumed it.
    Used,
    /// Rust's stand-in for an empty handle: panics when called.
    Fallback,
    /// Being called.
    Busy,
}
#[derive(Default, Clone)]
struct Obj {
    val: u64,
    zst: bool,
    boom: bool,
    inner: bool,
    n: u64,
}
const D: usize = 4;
const R: usize = 3;
#[derive(Default)]
struct World {
    kind: i32,
    objs: Vec<Obj>,
    d: [M; D],
    a: [M; D],
    r: [M; R],
    held: [Option<Held>; R],
    running: Vec<u64>,
    expect: Vec<(u64, u64, u64)>,
    made: usize,
    crossings: u64,
}

/// Calls that end the process are made in a child.
fn in_child(what: &str, f: impl FnOnce()) {
    let (exit, said) = simkit::proc::forked(|p| {
        f();
        p.say("returned");
    });
    simkit::fault("call-in-child");
    simkit::check!(
        exit == simkit::proc::Exit::Signal(simkit::proc::SIGABRT) && said.is_empty(),
        "not-loud",
        "{what} ended with {exit:?} ({said}), not with an abort"
    );
}

fn cc(what: i32, i: u64, j: u64, x: u64, y: u64, buf: *mut u8) -> u64 {
    let kind = W.with_borrow(|w| w.kind);
    unsafe { callable_op(kind, what, i, j, x, y, buf) }
}
fn area<'a>(n: usize, how: u64) -> Area {
    // Nested operations use the other page.
    FENCE.with(|f| {
        let deep = W.with_borrow(|w| !w.running.is_empty());
        (if deep { &f.1 } else { &f.0 }).take(n, how & 1 == 1, (how >> 1) as u8 ^ 0x5a)
    })
}
fn fallback0() -> Box<F0> {
    Box::new(|_: u64, _: u64| -> u64 { panic!("moved-from value") })
}
fn fallback1() -> Box<F1> {
    Box::new(|_: u64, _: u64| -> u64 { panic!("moved-from value") })
}
fn fallback2() -> Box<F2> {
    Box::new(|_: u64, _: u64| -> u64 { panic!("moved-from value") })
}
/// Encodes for C++ in one of three shapes.
fn put(h: Held, shape: u64, x: u64, buf: *mut u8) {
    fn go<F: ?Sized>(f: Box<F>, fall: Box<F>, shape: u64, x: u64, buf: *mut u8) {
        let abi = DynCallableAbi::new(fall);
        unsafe {
            match shape {
                0 => internal::encode(abi, buf, f),
                1 => internal::encode((abi, transmute_abi::<u64>()), buf, (f, x)),
                _ => internal::encode(OptionAbi(abi), buf, Some(f)),
            }
        }
    }
    match h {
        Held::F(f) => go(f, fallback0(), shape, x, buf),
        Held::M(f) => go(f, fallback1(), shape, x, buf),
        Held::O(f) => go(f, fallback2(), shape, x, buf),
    }
}
fn get(kind: i32, shape: u64, x: u64, buf: *const u8) -> Option<Held> {
    fn go<F: ?Sized>(fall: Box<F>, shape: u64, x: u64, buf: *const u8) -> Option<Box<F>> {
        let abi = DynCallableAbi::new(fall);
        unsafe {
            match shape {
                0 => Some(internal::decode(abi, buf)),
                1 => {
                    let (f, y) = internal::decode((abi, transmute_abi::<u64>()), buf);
                    simkit::check!(x == y, "neighbour-changed", "next to a callable, {x} arrived as {y}");
                    Some(f)
                }
                _ => internal::decode(OptionAbi(abi), buf),
            }
        }
    }
    Some(match kind {
        0 => Held::F(go(fallback0(), shape, x, buf)?),
        1 => Held::M(go(fallback1(), shape, x, buf)?),
        _ => Held::O(go(fallback2(), shape, x, buf)?),
    })
}
fn make(op: &Node, kind: i32) -> (Held, u64) {
    let (val, sort) = (op.a(1) as u64, op.a(2).rem_euclid(8));
    let _p = simkit::pause();
    let inner: Vec<Node> = op.kids.clone();
    let (id, zst, boom) = W.with_borrow_mut(|w| {
        w.made += 1;
        let o = Obj { val, zst: sort == 1, boom: sort == 2, inner: !inner.is_empty(), n: 0 };
        let (z, b) = (o.zst, o.boom);
        w.objs.push(o);
        (w.objs.len() as u64, z, b)
    });
    drop(_p);
    if zst {
        let z = Z::new();
        return match kind {
            0 => (Held::F(Box::new(move |a, b| z.call(a, b))), id),
            1 => (Held::M(Box::new(move |a, b| z.call(a, b))), id),
            _ => (
                Held::O(Box::new(move |a, b| {
                    let z = z;
                    z.call(a, b)
                })),
                id,
            ),
        };
    }
    let h = reg_new(val);
    let mut t = T { h, id, big: [id; 5], n: 0, inner, boom };
    (
        match kind {
            0 => Held::F(Box::new(move |a, b| t.at(a, b, 0))),
            1 => Held::M(Box::new(move |a, b| t.call(a, b))),
            _ => Held::O(Box::new(move |a, b| {
                let mut t = t;
                t.call(a, b)
            })),
        },
        id,
    )
}
/// A call to target `id` is about to happen: what it has to return.
fn arm(id: u64, a: u64, b: u64) -> u64 {
    W.with_borrow_mut(|w| {
        let kind = w.kind;
        let o = &mut w.objs[id as usize - 1];
        let (key, r) = if o.zst {
            (0, mix(7, a, b, 0))
        } else {
            (id, mix(o.val, a, b, o.n))
        };
        if kind == 1 && !o.zst {
            o.n += 1;
        }
        w.expect.push((key, a, b));
        w.running.push(id);
        r
    })
}
fn disarm(what: &str) {
    W.with_borrow_mut(|w| {
        w.running.pop();
        if let Some((id, ..)) = w.expect.pop() {
            simkit::fail("call-lost", &format!("{what} did not reach target #{id}"));
        }
    })
}
fn check_live(after: &str) {
    W.with_borrow(|w| {
        let mut live: Vec<u64> = vec![];
        for m in w.d.iter().chain(&w.a).chain(&w.r) {
            if let M::Has(i) = m {
                live.push(*i);
            }
        }
        live.extend(&w.running);
        let z = live.iter().filter(|i| w.objs[**i as usize - 1].zst).count() as i64;
        let t = live.len() as i64 - z;
        let (zh, th) = (Z_LIVE.with(|z| z.get()), reg_refs());
        simkit::check!(zh == z && th == t, if zh + th > z + t { "target-leak" } else { "target-lost" }, "after {after}: {} targets exist, {} handles own one", zh + th, z + t);
    });
}

fn exec(op: &Node) {
    if simkit::failed() {
        return;
    }
    simkit::step();
    let kind = W.with_borrow(|w| w.kind);
    let i = op.ix(0, D);
    let j = op.ix(1, D);
    let ri = op.ix(0, R);
    let x = op.a(2) as u64;
    let y = op.a(3) as u64;
    let peek = |f: &dyn Fn(&World) -> M| W.with_borrow(|w| f(w));
    let (di, dj, ai, aj, ri_m) = (peek(&|w| w.d[i]), peek(&|w| w.d[j]), peek(&|w| w.a[i]), peek(&|w| w.a[j]), peek(&|w| w.r[ri]));
    // Who is being called may move its own handle only when the call consumed it.
    if [di, dj, ai, aj, ri_m].contains(&M::Busy) {
        return;
    }
    let set = |f: &dyn Fn(&mut World)| W.with_borrow_mut(|w| f(w));
    let null = std::ptr::null_mut();
    let name = op.op.as_str();
    simkit::reached(simkit::hash_bytes(kind as u64 * 1000 + std::mem::size_of_val(&di) as u64, format!("{name} {} {}", class(di), class(ai)).as_bytes()));
    match name {
        "new" => {
            // A Rust closure, kept in Rust.
            let (h, id) = make(op, kind);
            ev!("r{ri} = closure #{id}");
            let old = W.with_borrow_mut(|w| {
                w.r[ri] = M::Has(id);
                w.held[ri].replace(h)
            });
            drop(old);
        }
        "send" => {
            let (r, d) = (op.ix(0, R), op.ix(1, D));
            let Some(h) = W.with_borrow_mut(|w| w.held[r].take()) else { return };
            let m = peek(&|w| w.r[r]);
            let shape = x % 3;
            ev!("r{r} ({m:?}) to C++ d{d} (shape {shape})");
            set(&|w| {
                w.r[r] = M::Empty;
                w.d[d] = m;
                w.crossings += 1;
            });
            let b = area([24, 32, 25][shape as usize], y);
            put(h, shape, x, b.p);
            b.check("encoding in Rust");
            let got = cc([0, 14, 15][shape as usize], d as u64, 0, 0, 0, b.p);
            let want = [0, x, 1][shape as usize];
            simkit::check!(got == want, "bad-decode", "C++ decoded {got} beside the callable, not {want}");
        }
        "none" => {
            // An absent option: nothing changes hands.
            ev!("None to C++");
            let b = area(25, y);
            unsafe {
                match kind {
                    0 => internal::encode(OptionAbi(DynCallableAbi::new(fallback0())), b.p, None),
                    1 => internal::encode(OptionAbi(DynCallableAbi::new(fallback1())), b.p, None),
                    _ => internal::encode(OptionAbi(DynCallableAbi::new(fallback2())), b.p, None),
                }
            }
            let got = cc(15, i as u64, 0, 0, 0, b.p);
            simkit::check!(got == 0, "bad-decode", "C++ decoded an absent option as present");
        }
        "take" => {
            let (d, r) = (op.ix(0, D), op.ix(1, R));
            let shape = x % 3;
            let m = di;
            let absent = shape == 2 && y & 4 == 4;
            ev!("d{d} ({m:?}) to Rust r{r} (shape {shape})");
            if peek(&|w| w.r[r]) == M::Busy {
                return;
            }
            set(&|w| w.crossings += 1);
            let b = area([24, 32, 25][shape as usize], y);
            cc([1, 16, 17][shape as usize], d as u64, 0, if shape == 2 { !absent as u64 } else { x }, 0, b.p);
            b.check("encoding in C++");
            let h = get(kind, shape, x, b.p);
            simkit::check!(h.is_some() == !absent, "bad-decode", "an option with a callable lost or gained its value");
            if absent {
                return;
            }
            let to = match m {
                M::Has(_) | M::Fallback => m,
                _ => M::Fallback,
            };
            let old = W.with_borrow_mut(|w| {
                w.d[d] = M::Empty;
                w.r[r] = to;
                std::mem::replace(&mut w.held[r], h)
            });
            drop(old);
        }
        "any" => {
            ev!("d{i} ({di:?}) becomes AnyInvocable a{j}");
            set(&|w| {
                w.a[j] = if di == M::Used { M::Empty } else { di };
                w.d[i] = M::Empty;
            });
            cc(9, i as u64, j as u64, 0, 0, null);
        }
        "anymove" => {
            let clear = x & 1 == 1;
            ev!("a{i} = {}", if clear { "nullptr".into() } else { format!("a{j}") });
            if !clear && i == j {
                return;
            }
            set(&|w| w.a[i] = if clear { M::Empty } else { std::mem::take(&mut w.a[j]) });
            cc(11, i as u64, j as u64, x, 0, null);
        }
        "anytake" => {
            let r = op.ix(1, R);
            let m = ai;
            // A consumed AnyInvocable is absl's own business.
            if m == M::Used || peek(&|w| w.r[r]) == M::Busy {
                return;
            }
            ev!("a{i} ({m:?}) to Rust r{r}");
            let b = area(17, y);
            let rust = cc(13, i as u64, 0, 0, 0, b.p);
            set(&|w| {
                w.a[i] = M::Empty;
                w.crossings += 1;
            });
            if m == M::Empty {
                return;
            }
            simkit::check!(rust == 1, "not-recognised", "a Rust closure inside an AnyInvocable was not recognised as Rust's own");
            fn take<F: ?Sized>(b: *const u8) -> Box<F> {
                unsafe {
                    let (has, f) = internal::decode((transmute_abi::<bool>(), transmute_abi::<Box<F>>()), b);
                    simkit::check!(has, "bad-decode", "an AnyInvocable with a target arrived empty");
                    f
                }
            }
            let h = match kind {
                0 => Held::F(take(b.p)),
                1 => Held::M(take(b.p)),
                _ => Held::O(take(b.p)),
            };
            let old = W.with_borrow_mut(|w| {
                w.r[r] = m;
                w.held[r].replace(h)
            });
            drop(old);
        }
        "call" | "anycall" | "byvalue" => {
            let any = name == "anycall";
            let m = if any { ai } else { di };
            let what = match name {
                "call" => 2,
                "anycall" => 10,
                _ => 18,
            };
            ev!("{name} {i} ({m:?}) with {x}, {y}");
            let own = move |w: &mut World, to: M| {
                if any {
                    w.a[i] = to
                } else {
                    w.d[i] = to
                }
            };
            if name == "byvalue" && x & 1 == 0 {
                // Passed and dropped, not called.
                set(&|w| w.d[i] = M::Empty);
                cc(what, i as u64, 0, x, y, null);
            } else {
                match m {
                    M::Empty => return,
                    M::Used => {
                        if op.a(4) % 8 == 0 {
                            in_child("a second consuming call", || {
                                cc(what, i as u64, 0, x, y, null);
                            });
                        }
                        return;
                    }
                    M::Fallback => {
                        if op.a(4) % 8 == 0 {
                            in_child("calling the stand-in of an empty handle", || {
                                cc(what, i as u64, 0, x, y, null);
                            });
                        }
                        return;
                    }
                    M::Has(id) if W.with_borrow(|w| w.objs[id as usize - 1].boom) => {
                        if op.a(4) % 4 == 0 {
                            in_child("a target that panics, called from C++,", || {
                                arm(id, x, y);
                                cc(what, i as u64, 0, x, y, null);
                            });
                        }
                        return;
                    }
                    M::Has(id) => {
                        // A consuming call may replace its own handle while it runs. A parameter
                        // taken by value is another handle.
                        let during = if name == "byvalue" {
                            M::Empty
                        } else if kind == 2 {
                            M::Used
                        } else {
                            M::Busy
                        };
                        set(&|w| own(w, during));
                        let want = arm(id, x, y);
                        if W.with_borrow(|w| w.objs[id as usize - 1].inner) {
                            simkit::probe("reentrant-call");
                        }
                        let got = cc(what, i as u64, 0, x, y, null);
                        simkit::check!(got == want, "bad-result", "target #{id} returned {want:#x}, the caller got {got:#x}");
                        disarm(name);
                        if during == M::Busy {
                            set(&|w| own(w, m));
                        }
                    }
                    M::Busy => return,
                }
            }
        }
        "rcall" => {
            let m = ri_m;
            ev!("call r{ri} ({m:?}) with {x}, {y}");
            let Some(h) = W.with_borrow_mut(|w| w.held[ri].take()) else { return };
            set(&|w| w.r[ri] = M::Busy);
            let want = match m {
                M::Has(id) => Some(arm(id, x, y)),
                _ => None,
            };
            let r = catch(|| match h {
                Held::F(f) => {
                    let r = catch(|| f(x, y));
                    (r, Some(Held::F(f)))
                }
                Held::M(mut f) => {
                    let r = catch(|| f(x, y));
                    (r, Some(Held::M(f)))
                }
                Held::O(f) => (catch(|| f(x, y)), None),
            });
            let (r, back) = match r {
                Ok(x) => x,
                Err(_) => return simkit::fail("harness", "nested catch"),
            };
            match (&r, want) {
                (Ok(got), Some(want)) => simkit::check!(*got == want, "bad-result", "the target returned {want:#x}, Rust got {got:#x}"),
                (Err(Caught::Other(s)), Some(_)) if s.contains("target panics") => simkit::fault("target-panic"),
                (Err(Caught::Other(s)), None) if s.contains("moved-from value") => simkit::fault("fallback-panic"),
                (Ok(_), None) => simkit::fail("not-loud", "the stand-in of an empty handle returned"),
                (Err(e), _) => simkit::fail("unexpected-panic", &format!("{}", simkit::last_panic().to_string() + match e { Caught::Other(s) => s, _ => "" })),
            }
            if want.is_some() {
                disarm("a call in Rust");
            }
            W.with_borrow_mut(|w| {
                if back.is_some() {
                    w.held[ri] = back;
                    w.r[ri] = m;
                } else {
                    w.r[ri] = M::Empty;
                }
            });
        }
        "rdrop" => {
            ev!("drop r{ri} ({ri_m:?})");
            let h = W.with_borrow_mut(|w| {
                w.r[ri] = M::Empty;
                w.held[ri].take()
            });
            drop(h);
        }
        "move" => {
            ev!("d{i} ({di:?}) = move d{j} ({dj:?})");
            if i == j {
                simkit::probe("self-move");
                // What a self-move leaves is unspecified, but it is all that owns the target.
                cc(3, i as u64, i as u64, 0, 0, null);
                let full = cc(8, i as u64, 0, 0, 0, null) == 1;
                set(&|w| {
                    w.d[i] = match w.d[i] {
                        m @ (M::Has(_) | M::Fallback) if full => m,
                        _ if full => {
                            simkit::fail("emptiness", "an empty handle is full after a self-move");
                            M::Empty
                        }
                        _ => M::Empty,
                    }
                });
            } else {
                set(&|w| {
                    w.d[i] = dj;
                    w.d[j] = M::Empty;
                });
                cc(3, i as u64, j as u64, 0, 0, null);
            }
        }
        "construct" => {
            if i == j {
                return;
            }
            ev!("d{i} ({di:?}) made from d{j} ({dj:?})");
            set(&|w| {
                w.d[i] = dj;
                w.d[j] = M::Empty;
            });
            cc(4, i as u64, j as u64, 0, 0, null);
        }
        "swap" => {
            ev!("swap d{i} ({di:?}), d{j} ({dj:?})");
            set(&|w| w.d.swap(i, j));
            cc(5, i as u64, j as u64, x, 0, null);
        }
        "null" => {
            ev!("d{i} ({di:?}) = nullptr");
            set(&|w| w.d[i] = M::Empty);
            cc(6, i as u64, 0, x, 0, null);
        }
        "destroy" => {
            ev!("destroy d{i} ({di:?})");
            set(&|w| w.d[i] = M::Empty);
            cc(7, i as u64, 0, 0, 0, null);
        }
        _ => {
            ev!("move d{i} ({di:?}) around");
            cc(19, i as u64, 0, 0, 0, null);
        }
    }
    // Every handle says whether it is empty.
    for k in 0..D {
        let (d, a) = W.with_borrow(|w| (w.d[k], w.a[k]));
        if d != M::Busy {
            let full = cc(8, k as u64, 0, 0, 0, null) == 1;
            let want = matches!(d, M::Has(_) | M::Fallback);
            simkit::check!(full == want, "emptiness", "d{k} is {d:?} and says it is {}", if full { "full" } else { "empty" });
        }
        if a != M::Busy && a != M::Used {
            let full = cc(12, k as u64, 0, 0, 0, null) == 1;
            simkit::check!(full == matches!(a, M::Has(_) | M::Fallback), "emptiness", "a{k} is {a:?} and says it is {}", if full { "full" } else { "empty" });
        }
    }
    check_live(name);
}
fn class(m: M) -> &'static str {
    match m {
        M::Empty => "empty",
        M::Has(_) => "has",
        M::Used => "used",
        M::Fallback => "fallback",
        M::Busy => "busy",
    }
}

fn run(case: &Node) {
    reg_reset();
    Z_LIVE.with(|z| z.set(0));
    FENCE.with(|_| ());
    W.with_borrow_mut(|w| *w = World { kind: case.ix(0, 3) as i32, ..World::default() });
    unsafe { callable_reset() };
    alloc_begin();
    for op in &case.kids {
        exec(op);
        if simkit::failed() {
            break;
        }
    }
    if !simkit::failed() {
        unsafe { callable_reset() };
        let held = W.with_borrow_mut(|w| std::mem::take(&mut w.held));
        drop(held);
        W.with_borrow_mut(|w| {
            w.d = Default::default();
            w.a = Default::default();
            w.r = Default::default();
        });
        check_live("the end");
    }
    let (made, crossings) = W.with_borrow(|w| (w.made, w.crossings));
    let old = W.with_borrow_mut(std::mem::take);
    if simkit::failed() {
        std::mem::forget(old);
    } else {
        drop(old);
    }
    alloc_end(!simkit::failed());
    if made > 0 && crossings > 1 {
        simkit::nontrivial();
    }
}

fn op(r: &mut Rng, depth: u32) -> Node {
    let (i, j) = (r.range(0, D as i64 - 1), r.range(0, D as i64 - 1));
    let (x, y) = (r.range(0, 99), r.range(0, 99));
    let c = r.range(0, 15);
    match r.weighted(&[7, 9, 1, 5, 4, 2, 3, 8, 3, 3, 4, 1, 6, 2, 3, 2, 2, 1]) {
        0 => {
            let mut kids = vec![];
            if depth == 0 && r.chance(1, 3) {
                for _ in 0..r.range(1, 3) {
                    kids.push(op(r, 1));
                }
            }
            tree("new", &[i, r.range(0, 1000), r.range(0, 7)], kids)
        }
        1 => node("send", &[i, j, x, y]),
        2 => node("none", &[i, j, x, y]),
        3 => node("take", &[i, j, x, y]),
        4 => node("any", &[i, j]),
        5 => node("anymove", &[i, j, x]),
        6 => node("anytake", &[i, j, x, y]),
        7 => node("call", &[i, j, x, y, c]),
        8 => node("anycall", &[i, j, x, y, c]),
        9 => node("byvalue", &[i, j, x, y, c]),
        10 => node("rcall", &[i, j, x, y]),
        11 => node("rdrop", &[i]),
        12 => node("move", &[i, j]),
        13 => node("construct", &[i, j]),
        14 => node("swap", &[i, j, x]),
        15 => node("null", &[i, j, x]),
        16 => node("destroy", &[i]),
        _ => node("around", &[i]),
    }
}
fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    for _ in 0..r.range(4, 28) {
        kids.push(op(r, 0));
    }
    tree("callables", &[r.range(0, 2)], kids)
}

fn main() {
    assert_eq!(unsafe { callable_size() }, <DynCallableAbi<F0> as CrubitAbi>::SIZE);
    simkit::main(&Check {
        quick_cases: 400_000,
        rule: "a case is a history over four C++ handles, four AnyInvocables and three Rust boxes, of one of the three kinds of closure: closures are made, sent, returned, moved, self-moved, swapped, assigned, called (also while another call runs), consumed, converted and dropped; calls that have to end the process are made in a forked child; non-trivial: at least two crossings; distinct by the whole case",
        states: "distinct (kind, operation, state of the handles it meets)",
        real: &["support/rs_std/dyn_callable.h", "support/rs_std/dyn_callable.rs", "support/bridge.h", "support/crubit_bridge_rust/src/bridge.rs"],
        stubs: &["absl::AnyInvocable is a stand-in with absl's state, manager protocol and move rules", "the generated thunks are written by hand, as in the golden files"],
        assumptions: &["an empty handle is not called (documented as undefined)", "clang++ as the C++ compiler"],
        expected_probes: &["reentrant-call", "self-move"],
        ..Check::new("C04", generate, run)
    })
}
