#![feature(negative_impls, super_let)]
use check_ctor::*;
use ctor::{Assign, ConstRvalueReference, CtorNew, Emplace, Infallible, RustMoveCtor, RvalueReference, Slot};
use simkit::proc::{forked, Exit, SIGABRT};
use simkit::track::*;
use simkit::{ev, fail, step, Caught, Check, Node, Rng};
use std::pin::Pin;

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

const N: usize = 3;

/// (case SHAPE op...): ops on slots, pinned values and assignable values.
fn generate(r: &mut Rng, _: u64) -> Node {
    let shape = r.usize(3);
    let n = r.range(3, 24);
    let depth = r.range(1, 2) as u32;
    let weights: Vec<u64> = (0..15).map(|_| *r.pick(&[0, 1, 2, 5])).collect();
    let mut g = Gen0::new(r);
    let mut ops = vec![];
    for _ in 0..n {
        let k = g.r.range(0, N as i64 - 1);
        let j = g.r.range(0, N as i64 - 1);
        let bad = |g: &mut Gen0| if g.r.chance(g.fault.0, g.fault.1) { 900 + g.r.range(0, 99) } else { 0 };
        let boom = |g: &mut Gen0| if g.r.chance(g.boom.0, g.boom.1) { 5000 + g.r.range(0, 99) } else { 0 };
        ops.push(match g.r.weighted(&weights) {
            0 => simkit::node("new", &[k]),
            1 => simkit::tree("newwith", &[k], vec![g.f(shape, depth)]),
            2 => simkit::tree("replace", &[k], vec![g.i(shape, depth)]),
            3 | 4 => simkit::tree("tryreplace", &[k], vec![g.f(shape, depth)]),
            5 => simkit::node("clear", &[k]),
            6 => simkit::node("mutate", &[k, g.r.range(1, 99)]),
            7 => simkit::node("drop", &[k]),
            8 => simkit::tree("pinnew", &[k], vec![g.i(shape, depth)]),
            9 | 10 => simkit::tree("recon", &[k], vec![g.i(shape, depth)]),
            11 => {
                let (t, b) = (g.r.range(1, 999), boom(&mut g));
                simkit::node("mvnew", &[k, t, b])
            }
            12 => {
                let p = bad(&mut g);
                let b = boom(&mut g);
                simkit::node("assign", &[k, j, g.r.range(0, 3), p, b])
            }
            13 => simkit::tree("slotret", &[k], vec![g.i(shape, depth)]),
            _ => {
                let kind = g.r.range(0, 3);
                let e = if kind == 0 { g.i(shape, depth) } else { g.f(shape, depth) };
                simkit::tree("local", &[kind], vec![e])
            }
        });
    }
    simkit::tree("case", &[shape as i64], ops)
}

// ------------------------------------------------------------------ an assignable, movable value

/// Movable; its clone and destructor can panic.
struct Mv {
    id: u64,
    tag: i64,
    boom: i64,
}
thread_local! {
    static CLONE: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
}
impl Mv {
    fn new(tag: i64, boom: i64) -> Mv {
        Mv { id: obj_new(0), tag, boom }
    }
}
impl Drop for Mv {
    fn drop(&mut self) {
        obj_drop(self.id, 0);
        if self.boom != 0 {
            inject_panic(self.boom as u64);
        }
    }
}
use simkit::inject_panic;
impl Clone for Mv {
    fn clone(&self) -> Mv {
        obj_read(self.id, 0);
        let (p, b) = CLONE.with(|c| c.get());
        if p != 0 {
            inject_panic(p as u64);
        }
        Mv::new(self.tag, b)
    }
}
impl<'a> CtorNew<RvalueReference<'a, Mv>> for Mv {
    type CtorType = RustMoveCtor<Mv>;
    type Error = Infallible;
    fn ctor_new(src: RvalueReference<'a, Mv>) -> RustMoveCtor<Mv> {
        obj_read(src.id, 0);
        let (p, b) = CLONE.with(|c| c.get());
        if p != 0 {
            inject_panic(p as u64);
        }
        let m = Mv::new(src.tag, b);
        // Moving out empties the source.
        Pin::into_inner(src.0).tag = 0;
        RustMoveCtor::new(m)
    }
}
impl<'a> CtorNew<ConstRvalueReference<'a, Mv>> for Mv {
    type CtorType = RustMoveCtor<Mv>;
    type Error = Infallible;
    fn ctor_new(src: ConstRvalueReference<'a, Mv>) -> RustMoveCtor<Mv> {
        RustMoveCtor::new(src.0.clone())
    }
}

// ------------------------------------------------------------------ the world and its model

struct World<T> {
    slots: Vec<Option<Pin<Box<Slot<T>>>>>,
    pins: Vec<Option<Pin<Box<T>>>>,
    mvs: Vec<Option<Box<Mv>>>,
}
type V = Vec<(i64, i64)>;
#[derive(Default, Clone, Debug)]
struct Mod {
    slots: Vec<Option<Option<V>>>,
    pins: Vec<Option<V>>,
    mvs: Vec<Option<(i64, i64)>>,
}

fn boom_of(v: &[(i64, i64)]) -> Option<i64> {
    v.iter().map(|l| l.1).find(|b| *b != 0)
}

/// Expected result of one operation.
#[derive(Debug, PartialEq)]
enum Exp {
    Fine,
    Err(i64),
    Panic(Why),
    Abort,
}

fn compare<T>(op: &str, want: &Exp, got: &Result<Result<T, E>, Caught>) {
    let ok = match (want, got) {
        (Exp::Fine, Ok(Ok(_))) => true,
        (Exp::Err(e), Ok(Err(x))) => *e == x.0,
        (Exp::Panic(Why::Inj(k)), Err(Caught::Injected(j))) => *k == *j as i64,
        (Exp::Panic(Why::Msg(e)), Err(Caught::Other(m))) => m.contains(&format!("E({e})")),
        (Exp::Panic(Why::Unreachable), Err(Caught::Other(m))) => m.contains("unreachable"),
        _ => false,
    };
    if !ok {
        let _p = simkit::pause();
        let g = match got {
            Ok(Ok(_)) => "success".to_string(),
            Ok(Err(e)) => format!("{e:?}"),
            Err(c) => format!("{c:?}"),
        };
        fail("wrong-outcome", &format!("{op}: expected {want:?}, got {g}"));
    }
}
fn exp(o: &Out) -> Exp {
    match o {
        Out::Ok(_) => Exp::Fine,
        Out::Err(e) => Exp::Err(*e),
        Out::Panic(w) => Exp::Panic(w.clone()),
    }
}
fn tags(v: &V) -> Vec<i64> {
    v.iter().map(|l| l.0).collect()
}

trait First {
    fn first_mut(self: Pin<&mut Self>) -> Pin<&mut Leaf>;
}
impl First for Leaf {
    fn first_mut(self: Pin<&mut Self>) -> Pin<&mut Leaf> {
        self
    }
}
impl First for Three {
    fn first_mut(self: Pin<&mut Self>) -> Pin<&mut Leaf> {
        self.first_leaf()
    }
}
impl First for Tup {
    fn first_mut(self: Pin<&mut Self>) -> Pin<&mut Leaf> {
        self.first_leaf()
    }
}

fn slotted_return<'a, T: Shape + CtorNew<(), Error = E>>(s: Pin<&'a mut Slot<T>>, e: &Node) -> Pin<&'a mut T> {
    s.replace(i::<T>(e))
}

fn go<T: Shape + First + CtorNew<(), Error = E>>(case: &Node) {
    plan_reset();
    let _ = kid(case, usize::MAX);
    alloc_begin();
    let mut w = World::<T> { slots: vec![], pins: vec![], mvs: vec![] };
    let mut m = Mod::default();
    for _ in 0..N {
        w.slots.push(None);
        w.pins.push(None);
        w.mvs.push(None);
        m.slots.push(None);
        m.pins.push(None);
        m.mvs.push(None);
    }
    for op in &case.kids {
        step();
        let k = op.ix(0, N);
        let e = kid(op, 0);
        ev!("op {} {:?}", op.op, op.args);
        plan(|p| p.trace.clear());
        let mut mm = Model::default();
        let mut steps = true;
        match op.op.as_str() {
            "new" | "newwith" => {
                let with = op.op == "newwith";
                // The old slot goes first.
                drop_slot(&mut w, &mut m, k);
                let want = if with { model_f::<T>(e, &mut mm) } else { Out::Ok(vec![]) };
                let got = catch(|| {
                    if with {
                        <Box<Slot<T>> as Emplace<Slot<T>>>::try_emplace(Slot::new(f::<T>(e)))
                    } else {
                        Ok(<Box<Slot<T>> as Emplace<Slot<T>>>::emplace(Slot::<T>::uninit()))
                    }
                });
                compare(&op.op, &exp(&want), &got);
                if let Out::Ok(v) = want {
                    m.slots[k] = Some(if with { Some(v) } else { None });
                }
                if let Ok(Ok(s)) = got {
                    w.slots[k] = Some(s);
                } else {
                    m.slots[k] = None;
                }
            }
            "replace" | "tryreplace" | "slotret" => {
                let Some(old) = m.slots[k].clone() else { continue };
                let Some(s) = w.slots[k].as_mut() else { continue };
                let fallible = op.op == "tryreplace";
                // The old value is destroyed first, whatever comes next.
                m.slots[k] = Some(None);
                let want = match old.as_ref().and_then(|v| boom_of(v)) {
                    Some(b) => Out::Panic(Why::Inj(b)),
                    None if fallible => model_f::<T>(e, &mut mm),
                    None => model_i::<T>(e, &mut mm),
                };
                let mut seen = vec![];
                let got = catch(|| {
                    let p = match op.op.as_str() {
                        "tryreplace" => s.as_mut().try_replace(f::<T>(e))?,
                        "replace" => s.as_mut().replace(i::<T>(e)),
                        _ => slotted_return(s.as_mut(), e),
                    };
                    p.as_ref().get_ref().look(&mut seen);
                    Ok(())
                });
                compare(&op.op, &exp(&want), &got);
                if let Out::Ok(v) = want {
                    simkit::check!(tags(&v) == seen, "wrong-value", "{} returned {seen:?}, stored {:?}", op.op, tags(&v));
                    m.slots[k] = Some(Some(v));
                } else {
                    simkit::probe("replace-failed");
                }
            }
            "clear" => {
                let Some(old) = m.slots[k].clone() else { continue };
                let Some(s) = w.slots[k].as_mut() else { continue };
                m.slots[k] = Some(None);
                let want = match old.as_ref().and_then(|v| boom_of(v)) {
                    Some(b) => {
                        simkit::probe("clear-panicked");
                        Exp::Panic(Why::Inj(b))
                    }
                    None => Exp::Fine,
                };
                let got = catch(|| {
                    s.as_mut().clear();
                    Ok(())
                });
                compare("clear", &want, &got);
            }
            // Values and slots in the frame of a function, by the macros.
            "local" => {
                let kind = op.a(0).rem_euclid(4);
                let want = match if kind == 0 { model_i::<T>(e, &mut mm) } else { model_f::<T>(e, &mut mm) } {
                    Out::Ok(v) => boom_of(&v).map_or(Out::Ok(v), |b| Out::Panic(Why::Inj(b))),
                    o => o,
                };
                let mut seen = vec![];
                let got = catch(|| {
                    match kind {
                        0 => ctor::emplace!(i::<T>(e)).as_ref().get_ref().look(&mut seen),
                        1 => {
                            let p = ctor::try_emplace!(f::<T>(e));
                            let p = p?;
                            p.as_ref().get_ref().look(&mut seen);
                        }
                        2 => {
                            let mut s = ctor::emplace!(Slot::<T>::uninit());
                            simkit::check!(s.as_opt().is_none(), "dead-value", "a slot not filled yet hands out a value");
                            let r = s.as_mut().try_replace(f::<T>(e)).map(|_| ());
                            simkit::check!(s.as_opt().is_some() == r.is_ok(), "dead-value", "a slot is full: {}, filled: {}", s.as_opt().is_some(), r.is_ok());
                            r?;
                            s.as_opt().into_iter().for_each(|v| v.look(&mut seen));
                        }
                        _ => {
                            let s = ctor::try_emplace!(Slot::new(f::<T>(e)));
                            let mut s = s?;
                            s.as_mut().as_opt_mut().into_iter().for_each(|v| v.as_ref().get_ref().look(&mut seen));
                            s.as_mut().clear();
                            simkit::check!(s.as_opt().is_none(), "dead-value", "a cleared slot hands out a value");
                        }
                    }
                    Ok(())
                });
                compare("local", &exp(&want), &got);
                if let Out::Ok(v) = want {
                    simkit::check!(tags(&v) == seen, "wrong-value", "local is {seen:?}, stored {:?}", tags(&v));
                    simkit::probe("local");
                }
            }
            "mutate" => {
                if let (Some(s), Some(Some(v))) = (w.slots[k].as_mut(), m.slots[k].as_mut()) {
                    match s.as_mut().as_opt_mut() {
                        Some(p) => {
                            p.first_mut().set_tag(op.a(1));
                            v[0].0 = op.a(1);
                        }
                        None => fail("lost-value", "a filled slot says it is empty"),
                    }
                }
            }
            "drop" => drop_slot(&mut w, &mut m, k),
            "pinnew" => {
                drop_pin(&mut w, &mut m, k);
                let want = model_i::<T>(e, &mut mm);
                let got = catch(|| Ok(Box::emplace(i::<T>(e))));
                compare("pinnew", &exp(&want), &got);
                if let (Ok(Ok(p)), Out::Ok(v)) = (got, want) {
                    w.pins[k] = Some(p);
                    m.pins[k] = Some(v);
                }
            }
            "recon" => {
                let Some(old) = m.pins[k].clone() else { continue };
                let Some(p) = w.pins[k].as_mut() else { continue };
                let want = match boom_of(&old) {
                    Some(_) => Exp::Abort,
                    None => match model_i::<T>(e, &mut mm) {
                        Out::Ok(v) => {
                            m.pins[k] = Some(v);
                            Exp::Fine
                        }
                        _ => Exp::Abort,
                    },
                };
                if want == Exp::Abort {
                    steps = false;
                    simkit::probe("reconstruct-failed");
                    simkit::nontrivial();
                    let (x, said) = forked(|pipe| {
                        let r = catch(|| unsafe { ctor::reconstruct(p.as_mut(), i::<T>(e)) });
                        pipe.say(&format!("continued: {r:?}"));
                    });
                    ev!("child {x:?}");
                    if x != Exit::Signal(SIGABRT) || !said.is_empty() {
                        fail("continued-after-failed-reconstruct", &format!("child ended {x:?}, {said}"));
                    }
                } else {
                    let got = catch(|| {
                        unsafe { ctor::reconstruct(p.as_mut(), i::<T>(e)) };
                        Ok(())
                    });
                    compare("recon", &want, &got);
                }
            }
            "mvnew" => {
                let old = m.mvs[k].take();
                let o = w.mvs[k].take();
                let r = catch(move || drop(o));
                compare("mvdrop", &old.filter(|o| o.1 != 0).map_or(Exp::Fine, |o| Exp::Panic(Why::Inj(o.1))), &r.map(Ok));
                w.mvs[k] = Some(Box::new(Mv::new(op.a(1), op.a(2))));
                m.mvs[k] = Some((op.a(1), op.a(2)));
            }
            "assign" => {
                let j = op.ix(1, N);
                let (Some(src), Some(dst)) = (m.mvs[j], m.mvs[k]) else { continue };
                if j == k {
                    continue;
                }
                let kind = op.a(2).rem_euclid(4);
                let (p, b) = (op.a(3), op.a(4));
                let mut from = w.mvs[j].take().unwrap();
                let to = w.mvs[k].as_mut().unwrap();
                CLONE.with(|c| c.set((p, b)));
                let got = catch(|| {
                    let mut t = Pin::new(&mut **to);
                    match kind {
                        0 => t.assign(&*from),
                        1 => t.assign(ctor::mov!(&mut *from)),
                        2 => t.assign(ConstRvalueReference(&*from)),
                        _ => t.as_mut().assign(ctor::copy(&*from)),
                    }
                    Ok(())
                });
                CLONE.with(|c| c.set((0, 0)));
                w.mvs[j] = Some(from);
                let want = if p != 0 {
                    Exp::Panic(Why::Inj(p))
                } else {
                    m.mvs[k] = Some((src.0, b));
                    if kind == 1 {
                        m.mvs[j] = Some((0, src.1));
                    }
                    if dst.1 != 0 { Exp::Panic(Why::Inj(dst.1)) } else { Exp::Fine }
                };
                compare("assign", &want, &got);
            }
            _ => continue,
        }
        let tr = plan(|p| p.trace.clone());
        if steps {
            simkit::check!(tr == mm.trace, "wrong-steps", "{}: steps {tr:?}, expected {:?}", op.op, mm.trace);
        }
        observe(&w, &m, &op.op);
        if simkit::failed() {
            break;
        }
    }
    for k in 0..N {
        drop_slot(&mut w, &mut m, k);
        drop_pin(&mut w, &mut m, k);
        let o = w.mvs[k].take();
        let _ = catch(move || drop(o));
    }
    drop(w);
    let live = obj_live();
    if !live.is_empty() {
        fail("never-destroyed", &format!("objects {live:?} were constructed but never destroyed"));
    }
    drop(m);
    plan(|p| p.trace = vec![]);
    alloc_end(true);
}

fn drop_slot<T: Shape>(w: &mut World<T>, m: &mut Mod, k: usize) {
    let old = m.slots[k].take();
    let s = w.slots[k].take();
    let want = old.flatten().and_then(|v| boom_of(&v));
    let got = catch(move || {
        drop(s);
        Ok(())
    });
    compare("drop", &want.map_or(Exp::Fine, |b| Exp::Panic(Why::Inj(b))), &got);
}
fn drop_pin<T: Shape>(w: &mut World<T>, m: &mut Mod, k: usize) {
    let old = m.pins[k].take();
    let s = w.pins[k].take();
    let want = old.and_then(|v| boom_of(&v));
    let got = catch(move || {
        drop(s);
        Ok(())
    });
    compare("drop", &want.map_or(Exp::Fine, |b| Exp::Panic(Why::Inj(b))), &got);
}

/// Everything observable equals the model.
fn observe<T: Shape>(w: &World<T>, m: &Mod, op: &str) {
    let _p = simkit::pause();
    let mut want_live = 0;
    for k in 0..N {
        if let (Some(s), Some(v)) = (&w.slots[k], &m.slots[k]) {
            let got = s.as_ref().get_ref().as_opt().map(|t| {
                let mut o = vec![];
                t.look(&mut o);
                o
            });
            let want = v.as_ref().map(tags);
            if got != want {
                fail("wrong-slot", &format!("after {op}: slot {k} holds {got:?}, expected {want:?}"));
            }
            want_live += v.as_ref().map_or(0, |v| v.len());
        }
        if let (Some(p), Some(v)) = (&w.pins[k], &m.pins[k]) {
            let mut o = vec![];
            p.as_ref().get_ref().look(&mut o);
            if o != tags(v) {
                fail("wrong-value", &format!("after {op}: pinned value {k} is {o:?}, expected {:?}", tags(v)));
            }
            want_live += v.len();
        }
        if let (Some(p), Some(v)) = (&w.mvs[k], &m.mvs[k]) {
            obj_read(p.id, 0);
            if p.tag != v.0 {
                fail("wrong-value", &format!("after {op}: assigned value {k} is {}, expected {}", p.tag, v.0));
            }
            want_live += 1;
        }
    }
    let live = obj_live().len();
    if live != want_live {
        fail("live-objects", &format!("after {op}: {live} objects are alive, expected {want_live}"));
    }
    simkit::reached(simkit::hash_bytes(7, format!("{:?}{:?}", m.slots, op).as_bytes()) % 1_000_000_007);
}

fn run(case: &Node) {
    match case.ix(0, 3) {
        0 => go::<Leaf>(case),
        1 => go::<Three>(case),
        _ => go::<Tup>(case),
    }
}

fn main() {
    simkit::main(&Check {
        quick_cases: 400_000,
        quick_secs: 60,
        rule: "a case is a history of 3-24 operations on 3 pinned slots, 3 pinned values and 3 assignable values, each constructor being a random expression with {ok, error, panic} steps and destructors that may panic; non-trivial: a fault fired; distinct by the whole case",
        states: "distinct (contents of the slots, operation)",
        real: &["support/ctor.rs: Slot, reconstruct, Assign, Emplace and the combinators", "support/ctor_proc_macros.rs"],
        stubs: &["values, closures and error types are instrumented by the harness", "global allocator wrapped to count and poison"],
        assumptions: &["a panic is never injected while another one is unwinding (defined to abort)", "documented process aborts are observed in a forked child"],
        expected_probes: &["local", "replace-failed", "clear-panicked", "reconstruct-failed", "panic", "err"],
        ..Check::new("C02", generate, run)
    })
}
