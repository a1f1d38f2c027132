//! Instrumented pinned types and an interpreter that turns a case tree into real `Ctor`
//! expressions of the crate under test, with a reference model of what they must do.
#![feature(negative_impls)]
#![allow(unused_must_use)]

use ctor::{Ctor, CtorNew, Infallible, ManuallyDropCtor, RustMoveCtor, RvalueReference, SelfCtor, Slot};
use simkit::track::*;
use simkit::{ev, fail, fault, probe, step, Node};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::pin::Pin;

/// The error type of fallible constructors.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct E(pub i64);
/// A second error type, reached through `Into`.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct E2(pub i64);
impl From<E> for E2 {
    fn from(e: E) -> E2 {
        let (add, panic) = PLAN.with(|p| p.borrow_mut().into.pop().unwrap_or((0, 0)));
        trace(T_INTO, e.0);
        if panic != 0 {
            inject_panic(panic as u64);
        }
        E2(e.0 + add)
    }
}

// ------------------------------------------------------------------ trace

pub const T_BASE: u8 = 1;
pub const T_THEN: u8 = 2;
pub const T_MAP: u8 = 3;
pub const T_ALT: u8 = 4;
pub const T_INTO: u8 = 5;
pub const T_COPY: u8 = 6;
pub const T_MOVE: u8 = 7;

#[derive(Default)]
pub struct Plan {
    pub trace: Vec<(u8, i64)>,
    pub into: Vec<(i64, i64)>,
    pub defaults: Vec<*const Node>,
    /// Outcome of the next copies/moves: (tag, outcome)
    pub clones: Vec<(i64, i64)>,
}
thread_local! {
    pub static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
}
pub fn trace(k: u8, v: i64) {
    let _p = simkit::pause();
    step();
    ev!("{k} {v}");
    PLAN.with(|p| p.borrow_mut().trace.push((k, v)));
}
pub fn plan_reset() {
    PLAN.with(|p| *p.borrow_mut() = Plan::default());
}
pub fn plan<T>(f: impl FnOnce(&mut Plan) -> T) -> T {
    let _p = simkit::pause();
    PLAN.with(|p| f(&mut p.borrow_mut()))
}

/// A token owned by closures and constructors: must be dropped exactly once, wherever it moves.
pub struct Tok(u64);
impl Tok {
    pub fn new() -> Tok {
        Tok(obj_new(0))
    }
    pub fn touch(&self) {
        obj_read(self.0, 0);
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        obj_drop(self.0, 0);
    }
}

// ------------------------------------------------------------------ the instrumented leaf

const MAGIC: u64 = 0x1EAF_1EAF_1EAF_1EAF;

/// A pinned object. `boom` != 0: its destructor panics with that number.
pub struct Leaf {
    magic: u64,
    id: u64,
    pub tag: i64,
    boom: i64,
    _pin: std::marker::PhantomPinned,
}
impl !Unpin for Leaf {}

impl Leaf {
    /// # Safety: `dest` is valid for writes.
    pub unsafe fn construct(dest: *mut Leaf, tag: i64, boom: i64) {
        unsafe {
            dest.write(Leaf {
                magic: MAGIC,
                id: obj_new(dest as usize),
                tag,
                boom,
                _pin: std::marker::PhantomPinned,
            })
        }
    }
    pub fn look(&self) -> i64 {
        if self.magic != MAGIC {
            fail("read-garbage", "an object that was never constructed was exposed");
            return -999;
        }
        obj_read(self.id, self as *const _ as usize);
        self.tag
    }
    pub fn set_tag(self: Pin<&mut Self>, tag: i64) {
        unsafe { self.get_unchecked_mut().tag = tag }
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fail("dropped-garbage", "destructor ran on memory that holds no constructed object");
            return;
        }
        obj_drop(self.id, self as *const _ as usize);
        self.magic = MAGIC; // kept: a second drop is recognised by id
        if self.boom != 0 {
            inject_panic(self.boom as u64);
        }
    }
}

// ------------------------------------------------------------------ shapes

#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Inj(i64),
    Msg(i64), // an unwrap/expect message mentioning this error
    Unreachable,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<(i64, i64)>), // (tag, boom) of the leaves in drop order
    Err(i64),
    Panic(Why),
}

/// The reference model: evaluates the same tree.
#[derive(Default)]
pub struct Model {
    pub trace: Vec<(u8, i64)>,
}

fn drop_outcome(v: &[(i64, i64)]) -> Option<i64> {
    v.iter().map(|l| l.1).find(|b| *b != 0)
}

pub trait Shape: Sized + 'static {
    /// Non-combinator construction with fallible error type.
    unsafe fn base_f(n: &Node, dest: *mut Self) -> Result<(), E>;
    unsafe fn base_i(n: &Node, dest: *mut Self) -> Result<(), Infallible>;
    fn model_base(n: &Node, fallible: bool, m: &mut Model) -> Out;
    /// Tags of all leaves, checking liveness and address of each.
    fn look(&self, out: &mut Vec<i64>);
    fn touch(self: Pin<&mut Self>) {}
}

static NIL: std::sync::LazyLock<Node> = std::sync::LazyLock::new(|| simkit::node("base", &[]));
pub fn kid(n: &Node, i: usize) -> &Node {
    n.kids.get(i).unwrap_or(&NIL)
}

pub struct DynF<T>(pub *const Node, PhantomData<fn() -> T>);
pub struct DynI<T>(pub *const Node, PhantomData<fn() -> T>);
impl<T> !SelfCtor for DynF<T> {}
impl<T> !SelfCtor for DynI<T> {}
pub fn f<T: Shape + CtorNew<(), Error = E>>(n: &Node) -> DynF<T> {
    DynF(n, PhantomData)
}
pub fn i<T: Shape + CtorNew<(), Error = E>>(n: &Node) -> DynI<T> {
    DynI(n, PhantomData)
}

fn act(n: &Node, base: usize, tok: &Tok) -> Result<(), E> {
    tok.touch();
    match n.a(base) {
        1 => {
            fault("err");
            Err(E(n.a(base + 1)))
        }
        2 => {
            inject_panic(n.a(base + 1) as u64);
            Ok(())
        }
        _ => Ok(()),
    }
}

unsafe impl<T: Shape + CtorNew<(), Error = E>> Ctor for DynF<T> {
    type Output = T;
    type Error = E;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), E> {
        let n = unsafe { &*self.0 };
        unsafe {
            match n.op.as_str() {
                // (then ACT CODE TAG  e)
                "then" => {
                    let tok = Tok::new();
                    f::<T>(kid(n, 0))
                        .ctor_then(move |mut p: Pin<&mut T>| {
                            trace(T_THEN, n.a(2));
                            let mut seen = vec![];
                            p.as_ref().get_ref().look(&mut seen);
                            p.as_mut().touch();
                            act(n, 0, &tok)
                        })
                        .ctor(dest)
                }
                // (maperr ADD PANIC e)
                "maperr" => {
                    let tok = Tok::new();
                    f::<T>(kid(n, 0))
                        .ctor_map_err(move |e: E| {
                            tok.touch();
                            trace(T_MAP, e.0);
                            if n.a(1) != 0 {
                                inject_panic(n.a(1) as u64);
                            }
                            E(e.0 + n.a(0))
                        })
                        .ctor(dest)
                }
                "errinto" => {
                    plan(|p| p.into.push((n.a(0), n.a(1))));
                    let depth = plan(|p| p.into.len());
                    let r = f::<T>(kid(n, 0)).ctor_err_into::<E2>().ctor(dest).map_err(|e| E(e.0));
                    plan(|p| p.into.truncate(depth - 1));
                    r
                }
                // (orelse PANIC e alt)
                "orelse" => {
                    let tok = Tok::new();
                    f::<T>(kid(n, 0))
                        .ctor_or_else(move |e: E| {
                            tok.touch();
                            trace(T_ALT, e.0);
                            if n.a(0) != 0 {
                                inject_panic(n.a(0) as u64);
                            }
                            f::<T>(kid(n, 1))
                        })
                        .ctor(dest)
                }
                "fallible" => i::<T>(kid(n, 0)).ctor_make_fallible::<E>().ctor(dest),
                "ordefault" => {
                    plan(|p| p.defaults.push(kid(n, 1)));
                    let depth = plan(|p| p.defaults.len());
                    let r = f::<T>(kid(n, 0)).ctor_unwrap_or_default().ctor(dest);
                    plan(|p| p.defaults.truncate(depth - 1));
                    r
                }
                "error" => {
                    trace(T_BASE, -n.a(0));
                    fault("err");
                    ctor::ctor_error::<T, E>(E(n.a(0))).ctor(dest)
                }
                "unreachable" => ctor::UnreachableCtor::<T, E>::new().ctor(dest),
                _ => T::base_f(n, dest),
            }
        }
    }
}

unsafe impl<T: Shape + CtorNew<(), Error = E>> Ctor for DynI<T> {
    type Output = T;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), Infallible> {
        let n = unsafe { &*self.0 };
        unsafe {
            match n.op.as_str() {
                "unwrap" => f::<T>(kid(n, 0)).ctor_unwrap().ctor(dest),
                "expect" => f::<T>(kid(n, 0)).ctor_expect("expectation").ctor(dest),
                "orelsei" => {
                    let tok = Tok::new();
                    f::<T>(kid(n, 0))
                        .ctor_or_else(move |e: E| {
                            tok.touch();
                            trace(T_ALT, e.0);
                            if n.a(0) != 0 {
                                inject_panic(n.a(0) as u64);
                            }
                            i::<T>(kid(n, 1))
                        })
                        .ctor(dest)
                }
                "theni" => {
                    let tok = Tok::new();
                    i::<T>(kid(n, 0))
                        .ctor_then(move |mut p: Pin<&mut T>| {
                            trace(T_THEN, n.a(2));
                            let mut seen = vec![];
                            p.as_ref().get_ref().look(&mut seen);
                            p.as_mut().touch();
                            tok.touch();
                            if n.a(0) == 2 {
                                inject_panic(n.a(1) as u64);
                            }
                            Ok(())
                        })
                        .ctor(dest)
                }
                "fn" => ctor::FnCtor::new(|d: *mut T| {
                    let Ok(()) = i::<T>(kid(n, 0)).ctor(d);
                })
                .ctor(dest),
                "unreachable" => ctor::UnreachableCtor::<T>::new().ctor(dest),
                _ => T::base_i(n, dest),
            }
        }
    }
}

pub fn model_f<T: Shape>(n: &Node, m: &mut Model) -> Out {
    match n.op.as_str() {
        "then" => {
            let r = model_f::<T>(kid(n, 0), m);
            let Out::Ok(v) = r else { return r };
            m.trace.push((T_THEN, n.a(2)));
            match n.a(0) {
                1 => match drop_outcome(&v) {
                    Some(b) => Out::Panic(Why::Inj(b)),
                    None => Out::Err(n.a(1)),
                },
                2 => Out::Panic(Why::Inj(n.a(1))),
                _ => Out::Ok(v),
            }
        }
        "maperr" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(e) => {
                m.trace.push((T_MAP, e));
                if n.a(1) != 0 { Out::Panic(Why::Inj(n.a(1))) } else { Out::Err(e + n.a(0)) }
            }
            r => r,
        },
        "errinto" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(e) => {
                m.trace.push((T_INTO, e));
                if n.a(1) != 0 { Out::Panic(Why::Inj(n.a(1))) } else { Out::Err(e + n.a(0)) }
            }
            r => r,
        },
        "orelse" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(e) => {
                m.trace.push((T_ALT, e));
                if n.a(0) != 0 { Out::Panic(Why::Inj(n.a(0))) } else { model_f::<T>(kid(n, 1), m) }
            }
            r => r,
        },
        "fallible" => model_i::<T>(kid(n, 0), m),
        "ordefault" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(_) => model_f::<T>(kid(n, 1), m),
            r => r,
        },
        "error" => {
            m.trace.push((T_BASE, -n.a(0)));
            Out::Err(n.a(0))
        }
        "unreachable" => Out::Panic(Why::Unreachable),
        _ => T::model_base(n, true, m),
    }
}
pub fn model_i<T: Shape>(n: &Node, m: &mut Model) -> Out {
    match n.op.as_str() {
        "unwrap" | "expect" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(e) => Out::Panic(Why::Msg(e)),
            r => r,
        },
        "orelsei" => match model_f::<T>(kid(n, 0), m) {
            Out::Err(e) => {
                m.trace.push((T_ALT, e));
                if n.a(0) != 0 { Out::Panic(Why::Inj(n.a(0))) } else { model_i::<T>(kid(n, 1), m) }
            }
            r => r,
        },
        "theni" => match model_i::<T>(kid(n, 0), m) {
            Out::Ok(v) => {
                m.trace.push((T_THEN, n.a(2)));
                if n.a(0) == 2 { Out::Panic(Why::Inj(n.a(1))) } else { Out::Ok(v) }
            }
            r => r,
        },
        "fn" => model_i::<T>(kid(n, 0), m),
        "unreachable" => Out::Panic(Why::Unreachable),
        _ => T::model_base(n, false, m),
    }
}

/// Default construction goes through the plan, so that it can fail too.
macro_rules! default_plan {
    ($($t:ty),*) => {$(
        impl CtorNew<()> for $t {
            type CtorType = DynF<$t>;
            type Error = E;
            fn ctor_new(_: ()) -> DynF<$t> {
                probe("default-used");
                let n = plan(|p| p.defaults.pop()).expect("harness: default plan");
                DynF(n, PhantomData)
            }
        }
    )*};
}
default_plan!(Leaf, Three, Tup, Deep, Gen<Leaf>, Gen<Three>, Pd, Un, Raw, Sl<Leaf>, Sl<Three>, Dft, ManuallyHolder);

/// Destroys what this constructor has built, unless forgotten.
struct Undo(*mut Leaf);
impl Drop for Undo {
    fn drop(&mut self) {
        unsafe { self.0.drop_in_place() }
    }
}

// (base TAG OUTCOME CODE BOOM): OUTCOME 0 ok, 1 error, 2 panic
impl Shape for Leaf {
    unsafe fn base_f(n: &Node, dest: *mut Self) -> Result<(), E> {
        match n.op.as_str() {
            // A copy or move of another object, which lives only during this construction.
            "copy" | "move" => unsafe { Self::base_i(n, dest).map_err(|e| match e {}) },
            _ => {
                trace(T_BASE, n.a(0));
                match n.a(1) {
                    1 => {
                        fault("err");
                        return Err(E(n.a(2)));
                    }
                    2 => inject_panic(n.a(2) as u64),
                    _ => {}
                }
                unsafe { Leaf::construct(dest, n.a(0), n.a(3)) };
                Ok(())
            }
        }
    }
    unsafe fn base_i(n: &Node, dest: *mut Self) -> Result<(), Infallible> {
        match n.op.as_str() {
            "copy" => {
                let src = <Box<Leaf> as ctor::Emplace<Leaf>>::emplace(i::<Leaf>(kid(n, 0)));
                plan(|p| p.clones.push((n.a(0), n.a(1))));
                unsafe { ctor::copy(&*src).ctor(dest) };
                let g = Undo(dest);
                drop(src);
                std::mem::forget(g);
                Ok(())
            }
            "move" => {
                let mut src = <Box<Leaf> as ctor::Emplace<Leaf>>::emplace(i::<Leaf>(kid(n, 0)));
                plan(|p| p.clones.push((n.a(0), n.a(1))));
                if n.a(2) % 2 == 0 {
                    unsafe { ctor::mov!(src).ctor(dest) };
                } else {
                    unsafe { ctor::ByValue(ctor::mov!(src)).ctor(dest) };
                }
                let g = Undo(dest);
                drop(src);
                std::mem::forget(g);
                Ok(())
            }
            _ => {
                trace(T_BASE, n.a(0));
                if n.a(1) != 0 {
                    inject_panic(n.a(2) as u64);
                }
                unsafe { Leaf::construct(dest, n.a(0), n.a(3)) };
                Ok(())
            }
        }
    }
    fn model_base(n: &Node, fallible: bool, m: &mut Model) -> Out {
        match n.op.as_str() {
            "copy" | "move" => {
                let src = model_i::<Leaf>(kid(n, 0), m);
                let Out::Ok(v) = src else { return src };
                m.trace.push((if n.op == "copy" { T_COPY } else { T_MOVE }, v[0].0));
                if n.a(1) != 0 {
                    return Out::Panic(Why::Inj(n.a(1)));
                }
                // The source is destroyed after the copy was made.
                if let Some(b) = drop_outcome(&v) {
                    return Out::Panic(Why::Inj(b));
                }
                Out::Ok(vec![(n.a(0), 0)])
            }
            _ => {
                m.trace.push((T_BASE, n.a(0)));
                match (n.a(1), fallible) {
                    (1, true) => Out::Err(n.a(2)),
                    (0, _) => Out::Ok(vec![(n.a(0), n.a(3))]),
                    (2, _) | (_, false) => Out::Panic(Why::Inj(n.a(2))),
                    _ => Out::Ok(vec![(n.a(0), n.a(3))]),
                }
            }
        }
    }
    fn look(&self, out: &mut Vec<i64>) {
        out.push(Leaf::look(self));
    }
}

/// Constructor used for copies and moves of leaves.
pub struct CloneLeaf(i64, i64);
impl !SelfCtor for CloneLeaf {}
unsafe impl Ctor for CloneLeaf {
    type Output = Leaf;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut Leaf) -> Result<(), Infallible> {
        if self.1 != 0 {
            inject_panic(self.1 as u64);
        }
        unsafe { Leaf::construct(dest, self.0, 0) };
        Ok(())
    }
}
impl CtorNew<&Leaf> for Leaf {
    type CtorType = CloneLeaf;
    type Error = Infallible;
    fn ctor_new(src: &Leaf) -> CloneLeaf {
        trace(T_COPY, src.look());
        let (t, o) = plan(|p| p.clones.pop()).unwrap_or((src.tag, 0));
        CloneLeaf(t, o)
    }
}
impl<'a> CtorNew<RvalueReference<'a, Leaf>> for Leaf {
    type CtorType = CloneLeaf;
    type Error = Infallible;
    fn ctor_new(src: RvalueReference<'a, Leaf>) -> CloneLeaf {
        trace(T_MOVE, src.get_ref().look());
        let (t, o) = plan(|p| p.clones.pop()).unwrap_or((src.get_ref().tag, 0));
        CloneLeaf(t, o)
    }
}

/// Fields of a struct are built one after the other; a failure destroys the built ones while
/// unwinding. `order` maps construction order to declaration (drop) order.
fn model_fields(parts: Vec<&dyn Fn(&mut Model) -> Out>, order: &[usize], m: &mut Model) -> Out {
    let mut got: Vec<Option<Vec<(i64, i64)>>> = vec![None; order.len()];
    for (k, p) in parts.iter().enumerate() {
        match p(m) {
            Out::Ok(v) => got[order[k]] = Some(v),
            Out::Err(_) => unreachable!("harness: field of infallible ctor"),
            r => return r,
        }
    }
    Out::Ok(got.into_iter().flatten().flatten().collect())
}

macro_rules! struct_shape {
    ($t:ty, $macro_expr:expr, $n:ident, $parts:expr, $order:expr, $me:ident, $look:expr) => {
        impl Shape for $t {
            unsafe fn base_f(n: &Node, dest: *mut Self) -> Result<(), E> {
                unsafe { Self::base_i(n, dest).map_err(|e| match e {}) }
            }
            unsafe fn base_i($n: &Node, dest: *mut Self) -> Result<(), Infallible> {
                unsafe { $macro_expr.ctor(dest) }
            }
            fn model_base(n: &Node, _: bool, m: &mut Model) -> Out {
                let $n = n;
                model_fields($parts, $order, m)
            }
            fn look(&self, out: &mut Vec<i64>) {
                let $me = self;
                let look: &dyn Fn(&Self, &mut Vec<i64>) = &$look;
                look($me, out)
            }
            fn touch(self: Pin<&mut Self>) {
                Projects::project_all(self);
            }
        }
    };
}
/// Reads every field through the generated projections.
trait Projects {
    fn project_all(self: Pin<&mut Self>) {}
}

#[ctor::recursively_pinned]
pub struct Three {
    a: Leaf,
    b: Leaf,
    c: Leaf,
}
impl Projects for Three {
    fn project_all(mut self: Pin<&mut Self>) {
        let addr = [&raw const self.a as usize, &raw const self.b as usize, &raw const self.c as usize];
        let p = self.as_mut().project_pin();
        let got = [&*p.a as *const Leaf as usize, &*p.b as *const Leaf as usize, &*p.c as *const Leaf as usize];
        simkit::check!(addr == got, "projection", "a projected field is not the field");
        p.c.as_ref().get_ref().look();
        let q = self.as_ref().project_ref();
        simkit::check!(&*q.b as *const Leaf as usize == addr[1], "projection", "a projected field is not the field");
    }
}
// Fields are deliberately initialised in another order than they are declared.
struct_shape!(
    Three,
    ctor::ctor!(Three { b: i::<Leaf>(kid(n, 0)), a: i::<Leaf>(kid(n, 1)), c: i::<Leaf>(kid(n, 2)) }),
    n,
    vec![
        &|m| model_i::<Leaf>(kid(n, 0), m),
        &|m| model_i::<Leaf>(kid(n, 1), m),
        &|m| model_i::<Leaf>(kid(n, 2), m)
    ],
    &[1, 0, 2],
    me,
    |me, out| { Shape::look(&me.a, out); Shape::look(&me.b, out); Shape::look(&me.c, out); }
);

#[ctor::recursively_pinned]
pub struct Tup(Leaf, Three, u32, Leaf);
impl Projects for Tup {
    fn project_all(self: Pin<&mut Self>) {
        let p = self.project_pin();
        p.1.project_all();
        p.3.as_ref().get_ref().look();
    }
}
struct_shape!(
    Tup,
    ctor::ctor!(Tup(i::<Leaf>(kid(n, 0)), i::<Three>(kid(n, 1)), 7u32, i::<Leaf>(kid(n, 2)))),
    n,
    vec![
        &|m| model_i::<Leaf>(kid(n, 0), m),
        &|m| model_i::<Three>(kid(n, 1), m),
        &|m| model_i::<Leaf>(kid(n, 2), m)
    ],
    &[0, 1, 2],
    me,
    |me, out| { Shape::look(&me.0, out); Shape::look(&me.1, out); Shape::look(&me.3, out); simkit::check!(me.2 == 7, "lost-field", "a plain field lost its value"); }
);

#[ctor::recursively_pinned]
pub struct Deep {
    x: Tup,
    y: Leaf,
}
impl Projects for Deep {
    fn project_all(self: Pin<&mut Self>) {
        self.project_pin().x.project_all();
    }
}
struct_shape!(
    Deep,
    ctor::ctor!(Deep { x: i::<Tup>(kid(n, 0)), y: i::<Leaf>(kid(n, 1)) }),
    n,
    vec![&|m| model_i::<Tup>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| { Shape::look(&me.x, out); Shape::look(&me.y, out); }
);

#[ctor::recursively_pinned]
pub struct Gen<T> {
    l: Leaf,
    t: T,
}
impl<T> Projects for Gen<T> {
    fn project_all(self: Pin<&mut Self>) {
        self.project_pin().l.as_ref().get_ref().look();
    }
}
struct_shape!(
    Gen<Leaf>,
    ctor::ctor!(Gen::<Leaf> { l: i::<Leaf>(kid(n, 0)), t: i::<Leaf>(kid(n, 1)) }),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| { Shape::look(&me.l, out); Shape::look(&me.t, out); }
);
struct_shape!(
    Gen<Three>,
    ctor::ctor!(Gen::<Three> { l: i::<Leaf>(kid(n, 0)), t: i::<Three>(kid(n, 1)) }),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Three>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| { Shape::look(&me.l, out); Shape::look(&me.t, out); }
);

/// With a pinned destructor, counted through a token-like object.
#[ctor::recursively_pinned(PinnedDrop)]
pub struct Pd {
    a: Leaf,
    drops: u64,
    b: Leaf,
}
impl ctor::PinnedDrop for Pd {
    unsafe fn pinned_drop(self: Pin<&mut Self>) {
        self.a.look();
        self.b.look();
        // `drops` holds an object id: destroying it twice or never is noticed.
        obj_drop(self.drops, 0);
    }
}
impl Projects for Pd {}
pub struct FreshId;
impl !SelfCtor for FreshId {}
unsafe impl Ctor for FreshId {
    type Output = u64;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut u64) -> Result<(), Infallible> {
        unsafe { dest.write(obj_new(0)) };
        Ok(())
    }
}
// The id is created last, when nothing can fail any more.
struct_shape!(
    Pd,
    ctor::ctor!(Pd { a: i::<Leaf>(kid(n, 0)), b: i::<Leaf>(kid(n, 1)), drops: FreshId }),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| { Shape::look(&me.a, out); Shape::look(&me.b, out); }
);

/// A union with one active field, destroyed by hand.
pub union U0 {
    l: ManuallyDrop<Leaf>,
    _n: u64,
}
pub struct Un(U0);
impl Drop for Un {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.0.l) }
    }
}
impl Projects for Un {}
pub struct UnCtor<C>(C);
impl<C> !SelfCtor for UnCtor<C> {}
unsafe impl<C: Ctor<Output = Leaf, Error = Infallible>> Ctor for UnCtor<C> {
    type Output = Un;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut Un) -> Result<(), Infallible> {
        unsafe { ctor::raw_ctor!(U0 { l: ManuallyDropCtor::new(self.0) }).ctor(&raw mut (*dest).0) }
    }
}
struct_shape!(
    Un,
    UnCtor(i::<Leaf>(kid(n, 0))),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m)],
    &[0],
    me,
    |me, out| { Shape::look(unsafe { &*me.0.l }, out); }
);

/// Built with raw_ctor! and plain movable fields in between.
pub struct Raw {
    a: Leaf,
    v: Vec<u8>,
    b: Box<Tok>,
    c: Leaf,
}
impl Projects for Raw {}
struct_shape!(
    Raw,
    ctor::raw_ctor!(Raw {
        a: i::<Leaf>(kid(n, 0)),
        v: vec![1u8, 2, 3],
        b: RustMoveCtor::new(Box::new(Tok::new())),
        c: i::<Leaf>(kid(n, 1))
    }),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| {
        Shape::look(&me.a, out);
        me.b.touch();
        simkit::check!(me.v == [1, 2, 3], "lost-field", "a plain field lost its value");
        Shape::look(&me.c, out);
    }
);

/// Derived default constructor: both fields come from the plan.
#[ctor::recursively_pinned]
#[derive(ctor::CtorFrom_Default)]
struct DftInner {
    a: PlanLeaf,
    b: PlanLeaf,
}
#[ctor::recursively_pinned]
struct PlanLeaf {
    l: Leaf,
}
struct PlanLeafCtor;
impl !SelfCtor for PlanLeafCtor {}
unsafe impl Ctor for PlanLeafCtor {
    type Output = PlanLeaf;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut PlanLeaf) -> Result<(), Infallible> {
        let n = plan(|p| p.defaults.pop()).expect("harness: default plan");
        unsafe { ctor::ctor!(PlanLeaf { l: i::<Leaf>(&*n) }).ctor(dest) }
    }
}
impl CtorNew<()> for PlanLeaf {
    type CtorType = PlanLeafCtor;
    type Error = Infallible;
    fn ctor_new(_: ()) -> PlanLeafCtor {
        PlanLeafCtor
    }
}
pub struct Dft(DftInner);
impl Projects for Dft {}
pub struct DftCtor(*const Node);
impl !SelfCtor for DftCtor {}
unsafe impl Ctor for DftCtor {
    type Output = Dft;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut Dft) -> Result<(), Infallible> {
        let n = unsafe { &*self.0 };
        let depth = plan(|p| {
            p.defaults.push(kid(n, 1));
            p.defaults.push(kid(n, 0));
            p.defaults.len()
        });
        let r = unsafe { DftInner::ctor_new(()).ctor(&raw mut (*dest).0) };
        plan(|p| p.defaults.truncate(depth - 2));
        r
    }
}
struct_shape!(
    Dft,
    DftCtor(n),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[0, 1],
    me,
    |me, out| { Shape::look(&me.0.a.l, out); Shape::look(&me.0.b.l, out); }
);

/// A field constructed through ManuallyDropCtor, released by a pinned destructor.
#[ctor::recursively_pinned(PinnedDrop)]
pub struct ManuallyHolder {
    m: ManuallyDrop<Leaf>,
    after: Leaf,
}
impl ctor::PinnedDrop for ManuallyHolder {
    unsafe fn pinned_drop(self: Pin<&mut Self>) {
        unsafe { ManuallyDrop::drop(&mut self.get_unchecked_mut().m) }
    }
}
impl Projects for ManuallyHolder {}
struct_shape!(
    ManuallyHolder,
    // The manually dropped part comes last: nothing may fail after it, as nobody would release it.
    ctor::ctor!(ManuallyHolder { after: i::<Leaf>(kid(n, 0)), m: ManuallyDropCtor::new(i::<Leaf>(kid(n, 1))) }),
    n,
    vec![&|m| model_i::<Leaf>(kid(n, 0), m), &|m| model_i::<Leaf>(kid(n, 1), m)],
    &[1, 0],
    me,
    |me, out| { Shape::look(&*me.m, out); Shape::look(&me.after, out); }
);

/// A struct that holds a slot.
#[ctor::recursively_pinned]
pub struct Sl<T> {
    s: Slot<T>,
}
macro_rules! slot_shape {
    ($t:ty) => {
        impl Shape for Sl<$t> {
            unsafe fn base_f(n: &Node, dest: *mut Self) -> Result<(), E> {
                if n.a(0).rem_euclid(4) == 3 {
                    unsafe { Slot::<$t>::uninit().ctor(&raw mut (*dest).s).map_err(|e| match e {}) }
                } else {
                    unsafe { Slot::<$t>::new(f::<$t>(kid(n, 0))).ctor(&raw mut (*dest).s) }
                }
            }
            unsafe fn base_i(n: &Node, dest: *mut Self) -> Result<(), Infallible> {
                if n.a(0).rem_euclid(4) == 3 {
                    unsafe { ctor::ctor!(Sl::<$t> { s: Slot::<$t>::uninit() }).ctor(dest) }
                } else {
                    unsafe { ctor::ctor!(Sl::<$t> { s: Slot::<$t>::new(i::<$t>(kid(n, 0))) }).ctor(dest) }
                }
            }
            fn model_base(n: &Node, fallible: bool, m: &mut Model) -> Out {
                if n.a(0).rem_euclid(4) == 3 {
                    Out::Ok(vec![])
                } else if fallible {
                    model_f::<$t>(kid(n, 0), m)
                } else {
                    model_i::<$t>(kid(n, 0), m)
                }
            }
            fn look(&self, out: &mut Vec<i64>) {
                if let Some(v) = self.s.as_opt() {
                    Shape::look(v, out)
                }
            }
            fn touch(self: Pin<&mut Self>) {
                if let Some(p) = self.project_pin().s.as_opt_mut() {
                    p.touch();
                }
            }
        }
    };
}
slot_shape!(Leaf);
slot_shape!(Three);

// ------------------------------------------------------------------ generator of expressions

pub const SHAPES: usize = 13;
fn fields(shape: usize) -> &'static [usize] {
    match shape {
        1 => &[0, 0, 0],
        2 => &[0, 1, 0],
        3 => &[2, 0],
        5 => &[0, 1],
        7 => &[0],
        4 | 6 | 8 | 9 | 10 => &[0, 0],
        _ => &[],
    }
}
pub struct Gen0<'a> {
    pub r: &'a mut simkit::Rng,
    pub tag: i64,
    pub fault: (u64, u64),
    pub boom: (u64, u64),
    pub weights: [u64; 10],
}
impl<'a> Gen0<'a> {
    pub fn new(r: &'a mut simkit::Rng) -> Self {
        let fault = *r.pick(&[(0, 1), (1, 20), (1, 8), (1, 3)]);
        let boom = *r.pick(&[(0, 1), (0, 1), (1, 10), (1, 3)]);
        let mut weights = [0; 10];
        for w in weights.iter_mut() {
            *w = *r.pick(&[0, 1, 3, 6]);
        }
        Gen0 { r, tag: 0, fault, boom, weights }
    }
    fn t(&mut self) -> i64 {
        self.tag += 1;
        self.tag
    }
    fn bad(&mut self) -> bool {
        self.r.chance(self.fault.0, self.fault.1)
    }
    fn base(&mut self, shape: usize, depth: u32, fallible: bool) -> Node {
        match shape {
            0 => {
                if depth > 0 && self.r.chance(1, 8) {
                    let op = if self.r.chance(1, 2) { "copy" } else { "move" };
                    let src = self.i(0, depth - 1);
                    let (t, o) = (self.t(), if self.bad() { 1000 + self.t() } else { 0 });
                    return simkit::tree(op, &[t, o, self.r.range(0, 3)], vec![src]);
                }
                let o = if self.bad() { self.r.range(1, 2) } else { 0 };
                let o = if !fallible && o == 1 { 2 } else { o };
                let boom = if self.r.chance(self.boom.0, self.boom.1) { 5000 + self.t() } else { 0 };
                let t = self.t();
                simkit::node("base", &[t, o, 100 + t, boom])
            }
            11 | 12 => {
                let k = if fallible { self.f(shape - 11, depth) } else { self.i(shape - 11, depth) };
                simkit::tree("base", &[self.r.range(0, 3)], vec![k])
            }
            s => {
                let d = depth.saturating_sub(1);
                let kids = fields(s).iter().map(|&k| self.i(k, d)).collect();
                simkit::tree("base", &[], kids)
            }
        }
    }
    pub fn f(&mut self, shape: usize, depth: u32) -> Node {
        if depth == 0 || self.r.chance(1, 4) {
            if self.bad() && self.r.chance(1, 4) {
                return simkit::node(*self.r.pick(&["error", "error", "unreachable"]), &[200 + self.tag]);
            }
            return self.base(shape, depth, true);
        }
        let d = depth - 1;
        let w = self.weights;
        match self.r.weighted(&[w[0] + 1, w[1], w[2], w[3] + 1, w[4], w[5]]) {
            0 => {
                let k = self.f(shape, d);
                let a = if self.bad() { self.r.range(1, 2) } else { 0 };
                let t = self.t();
                simkit::tree("then", &[a, 300 + t, t], vec![k])
            }
            1 => {
                let k = self.f(shape, d);
                let p = if self.bad() { 400 + self.t() } else { 0 };
                simkit::tree("maperr", &[self.r.range(1, 9) * 1000, p], vec![k])
            }
            2 => {
                let k = self.f(shape, d);
                let p = if self.bad() { 500 + self.t() } else { 0 };
                simkit::tree("errinto", &[self.r.range(1, 9) * 10000, p], vec![k])
            }
            3 => {
                let (a, b) = (self.f(shape, d), self.f(shape, d));
                let p = if self.bad() { 600 + self.t() } else { 0 };
                simkit::tree("orelse", &[p], vec![a, b])
            }
            4 => simkit::tree("fallible", &[], vec![self.i(shape, d)]),
            _ => {
                let (a, b) = (self.f(shape, d), self.f(shape, d));
                simkit::tree("ordefault", &[], vec![a, b])
            }
        }
    }
    pub fn i(&mut self, shape: usize, depth: u32) -> Node {
        if depth == 0 || self.r.chance(1, 3) {
            return self.base(shape, depth, false);
        }
        let d = depth - 1;
        let w = self.weights;
        match self.r.weighted(&[w[6] + 1, w[6], w[7] + 1, w[8], w[9]]) {
            0 => simkit::tree("unwrap", &[], vec![self.f(shape, d)]),
            1 => simkit::tree("expect", &[], vec![self.f(shape, d)]),
            2 => {
                let (a, b) = (self.f(shape, d), self.i(shape, d));
                let p = if self.bad() { 700 + self.t() } else { 0 };
                simkit::tree("orelsei", &[p], vec![a, b])
            }
            3 => {
                let k = self.i(shape, d);
                let a = if self.bad() { 2 } else { 0 };
                let t = self.t();
                simkit::tree("theni", &[a, 800 + t, t], vec![k])
            }
            _ => simkit::tree("fn", &[], vec![self.i(shape, d)]),
        }
    }
}

impl Three {
    pub fn first_leaf(self: Pin<&mut Self>) -> Pin<&mut Leaf> {
        self.project_pin().a
    }
}
impl Tup {
    pub fn first_leaf(self: Pin<&mut Self>) -> Pin<&mut Leaf> {
        self.project_pin().0
    }
}
