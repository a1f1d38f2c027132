#![feature(negative_impls, super_let)]
use check_ctor::*;
use ctor::{CtorNew, Emplace};
use simkit::track::*;
use simkit::{ev, fail, Caught, Check, Node, Rng};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

/// (case SHAPE MODE expr)
fn generate(r: &mut Rng, _: u64) -> Node {
    let shape = r.usize(SHAPES);
    let mode = r.range(0, 6);
    let depth = r.range(1, 4) as u32;
    let mut g = Gen0::new(r);
    // Modes 0, 1 and 6 emplace an infallible expression.
    let e = if matches!(mode, 0 | 1 | 6) { g.i(shape, depth) } else { g.f(shape, depth) };
    simkit::tree("case", &[shape as i64, mode], vec![e])
}

/// What the emplacing expression gave, with the value inspected and destroyed.
fn use_value<T: Shape>(mut p: Pin<&mut T>, out: &mut Vec<i64>) {
    p.as_ref().get_ref().look(out);
    p.as_mut().touch();
    let mut again = vec![];
    p.as_ref().get_ref().look(&mut again);
    simkit::check!(&again == out, "value-changed", "reading the object changed it: {out:?} then {again:?}");
}

fn exec<T: Shape + CtorNew<(), Error = E>>(mode: i64, e: &Node, out: &mut Vec<i64>) -> Result<(), E> {
    match mode {
        0 => {
            let p = ctor::emplace!(i::<T>(e));
            use_value(p, out);
            Ok(())
        }
        1 => {
            let mut b: Pin<Box<T>> = Box::emplace(i::<T>(e));
            use_value(b.as_mut(), out);
            Ok(())
        }
        2 => {
            let p = ctor::try_emplace!(f::<T>(e));
            use_value(p?, out);
            Ok(())
        }
        3 => {
            let mut b: Pin<Box<T>> = <Box<T> as Emplace<T>>::try_emplace(f::<T>(e))?;
            use_value(b.as_mut(), out);
            Ok(())
        }
        4 => {
            let b: Pin<Rc<T>> = <Rc<T> as Emplace<T>>::try_emplace(f::<T>(e))?;
            let c = b.clone();
            drop(b);
            c.as_ref().get_ref().look(out);
            Ok(())
        }
        5 => {
            let b: Pin<Arc<T>> = <Arc<T> as Emplace<T>>::try_emplace(f::<T>(e))?;
            let c = b.clone();
            drop(b);
            c.as_ref().get_ref().look(out);
            Ok(())
        }
        _ => {
            // Rust-movable result: construct() returns it by value.
            let mut b: Pin<Box<T>> = ctor::construct(BoxCtor::<T>(e, std::marker::PhantomData));
            use_value(b.as_mut(), out);
            Ok(())
        }
    }
}
/// A constructor of a movable handle.
struct BoxCtor<'a, T>(&'a Node, std::marker::PhantomData<fn() -> T>);
impl<T> !ctor::SelfCtor for BoxCtor<'_, T> {}
unsafe impl<T: Shape + CtorNew<(), Error = E>> ctor::Ctor for BoxCtor<'_, T> {
    type Output = Pin<Box<T>>;
    type Error = ctor::Infallible;
    unsafe fn ctor(self, dest: *mut Pin<Box<T>>) -> Result<(), ctor::Infallible> {
        let b = Box::emplace(i::<T>(self.0));
        unsafe { dest.write(b) };
        Ok(())
    }
}

fn go<T: Shape + CtorNew<(), Error = E>>(case: &Node) {
    let e = kid(case, 0);
    let mode = case.a(1).rem_euclid(7);
    let mut m = Model::default();
    let want = if matches!(mode, 0 | 1 | 6) { model_i::<T>(e, &mut m) } else { model_f::<T>(e, &mut m) };
    plan_reset();
    let _ = kid(case, usize::MAX);
    let mut seen = Vec::with_capacity(64);
    alloc_begin();
    let got = catch(|| exec::<T>(mode, e, &mut seen));
    let live = obj_live();
    alloc_end(true);
    let trace = plan(|p| std::mem::take(&mut p.trace));
    ev!("result {got:?} seen {seen:?}");
    if !live.is_empty() {
        fail("never-destroyed", &format!("objects {live:?} were constructed but never destroyed; result {got:?}"));
    }
    // Destructors of the final object may panic too: the object itself was still delivered.
    let ok = match (&want, &got) {
        (Out::Ok(v), r) => {
            let tags: Vec<i64> = v.iter().map(|l| l.0).collect();
            let boom = v.iter().map(|l| l.1).find(|b| *b != 0);
            simkit::check!(seen == tags, "wrong-object", "constructed {seen:?}, expected {tags:?}");
            match (boom, r) {
                (None, Ok(Ok(()))) => true,
                (Some(b), Err(Caught::Injected(k))) => *k as i64 == b,
                _ => false,
            }
        }
        (Out::Err(x), Ok(Err(y))) => *x == y.0 && seen.is_empty(),
        (Out::Panic(Why::Inj(k)), Err(Caught::Injected(j))) => *k == *j as i64,
        (Out::Panic(Why::Msg(x)), Err(Caught::Other(s))) => s.contains(&format!("E({x})")),
        (Out::Panic(Why::Unreachable), Err(Caught::Other(s))) => s.contains("unreachable"),
        _ => false,
    };
    simkit::check!(ok, "wrong-outcome", "expected {want:?}, got {got:?}");
    simkit::check!(trace == m.trace, "wrong-steps", "steps {trace:?}, expected {:?}", m.trace);
    match &want {
        Out::Ok(_) => simkit::probe("outcome-ok"),
        Out::Err(_) => simkit::probe("outcome-err"),
        Out::Panic(Why::Msg(_)) => simkit::probe("outcome-unwrap-panic"),
        Out::Panic(_) => simkit::probe("outcome-panic"),
    }
    simkit::reached(simkit::hash_bytes(case.a(0) as u64, format!("{:?}{:?}", want, trace.len()).as_bytes()));
    if e.size() > 3 {
        simkit::nontrivial();
    }
}

fn run(case: &Node) {
    match case.ix(0, SHAPES) {
        0 => go::<Leaf>(case),
        1 => go::<Three>(case),
        2 => go::<Tup>(case),
        3 => go::<Deep>(case),
        4 => go::<Gen<Leaf>>(case),
        5 => go::<Gen<Three>>(case),
        6 => go::<Pd>(case),
        7 => go::<Un>(case),
        8 => go::<Raw>(case),
        9 => go::<Dft>(case),
        10 => go::<ManuallyHolder>(case),
        11 => go::<Sl<Leaf>>(case),
        _ => go::<Sl<Three>>(case),
    }
}

fn main() {
    simkit::main(&Check {
        quick_cases: 3_000_000,
        rule: "a case is a random nesting of constructors (13 shapes, 7 ways to emplace) with {ok, error, panic} assigned to every step and destructor; non-trivial: more than 3 nodes or a fault fired; distinct by the whole case",
        states: "distinct (shape, outcome, number of executed steps)",
        real: &["support/ctor.rs", "support/ctor_proc_macros.rs", "std Box/Rc/Arc", "rustc drop elaboration and unwinding"],
        stubs: &["leaf objects, closures and error types are instrumented by the harness", "global allocator wrapped to count and poison"],
        assumptions: &["a panic is never injected while another one is unwinding (defined to abort)"],
        expected_probes: &["outcome-ok", "outcome-err", "outcome-panic", "outcome-unwrap-panic", "panic", "err", "default-used"],
        ..Check::new("C01", generate, run)
    })
}
