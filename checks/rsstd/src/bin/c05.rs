//! C05: values bridged between Rust and C++, over histories of making, sending, returning, bouncing,
//! moving and dropping them.
use bridge_rust::{internal, CrubitAbi, OptionAbi, TransmuteAbi};
use ccstring::std::{string_wrapper, BoxedCppStringAbi};
use check_rsstd::{reg_new, reg_refs, reg_reset, reg_unref, reg_val, Digest, Fenced, Stream};
use simkit::{ev, node, tree, Check, Node, Rng};
use std::any::Any;
use std::ffi::c_void;

#[repr(C, align(16))]
pub struct Big {
    a: u8,
    b: u64,
    c: u16,
}
macro_rules! handle {
    ($($t:ident),*) => {$(
        #[repr(C)]
        pub struct $t(u64);
        impl Drop for $t {
            fn drop(&mut self) {
                if self.0 != 0 || stringify!($t) != "Own" {
                    reg_unref(self.0);
                }
            }
        }
        impl Val for $t {
            fn make(s: &mut Stream) -> Self {
                $t(reg_new(s.next() >> 1))
            }
            fn dig(&self, d: &mut Digest) {
                d.add(reg_val(self.0))
            }
            fn spec(s: &mut Stream, d: &mut Digest, own: &mut i64) {
                d.add(s.next() >> 1);
                *own += 1;
            }
        }
    )*};
}
handle!(Own, Cpy, Dft);

/// A value which both languages can make from the same stream: `spec` says what its digest is, and
/// how many resources it owns, without making it.
trait Val {
    fn make(s: &mut Stream) -> Self;
    fn dig(&self, d: &mut Digest);
    fn spec(s: &mut Stream, d: &mut Digest, own: &mut i64);
}
macro_rules! plain {
    ($($t:ty: $make:expr, $bits:expr;)*) => {$(
        impl Val for $t {
            fn make(s: &mut Stream) -> Self {
                ($make)(s.next())
            }
            fn dig(&self, d: &mut Digest) {
                d.add(($bits)(*self))
            }
            fn spec(s: &mut Stream, d: &mut Digest, _: &mut i64) {
                d.add(($bits)(($make)(s.next())))
            }
        }
    )*};
}
plain! {
    u8: |x| x as u8, |v| v as u64;
    i32: |x| x as i32, |v| v as i64 as u64;
    u64: |x| x, |v| v;
    f64: f64::from_bits, f64::to_bits;
}
impl Val for bool {
    fn make(s: &mut Stream) -> Self {
        s.next() & 1 == 1
    }
    fn dig(&self, d: &mut Digest) {
        // As it is in memory, in case it is no bool at all.
        d.add(unsafe { *(self as *const bool as *const u8) } as u64)
    }
    fn spec(s: &mut Stream, d: &mut Digest, _: &mut i64) {
        d.add(s.next() & 1)
    }
}
impl Val for Big {
    fn make(s: &mut Stream) -> Self {
        Big { a: s.next() as u8, b: s.next(), c: s.next() as u16 }
    }
    fn dig(&self, d: &mut Digest) {
        d.add(self.a as u64);
        d.add(self.b);
        d.add(self.c as u64);
    }
    fn spec(s: &mut Stream, d: &mut Digest, _: &mut i64) {
        d.add(s.next() as u8 as u64);
        d.add(s.next());
        d.add(s.next() as u16 as u64);
    }
}
impl Val for string_wrapper {
    fn make(s: &mut Stream) -> Self {
        let n = s.next() % 20;
        let v: Vec<u8> = (0..n).map(|_| s.next() as u8).collect();
        string_wrapper::from(&v)
    }
    fn dig(&self, d: &mut Digest) {
        d.add(self.as_slice().len() as u64);
        self.as_slice().iter().for_each(|b| d.add(*b as u64));
    }
    fn spec(s: &mut Stream, d: &mut Digest, own: &mut i64) {
        let n = s.next() % 20;
        d.add(n);
        for _ in 0..n {
            d.add(s.next() as u8 as u64);
        }
        *own += 1;
    }
}
impl<T: Val> Val for Option<T> {
    fn make(s: &mut Stream) -> Self {
        if s.next() & 1 == 1 { Some(T::make(s)) } else { None }
    }
    fn dig(&self, d: &mut Digest) {
        d.add(self.is_some() as u64);
        if let Some(v) = self {
            v.dig(d);
        }
    }
    fn spec(s: &mut Stream, d: &mut Digest, own: &mut i64) {
        let some = s.next() & 1;
        d.add(some);
        if some == 1 {
            T::spec(s, d, own);
        }
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(
        #[allow(non_snake_case, unused_variables)]
        impl<$($t: Val),*> Val for ($($t,)*) {
            fn make(s: &mut Stream) -> Self {
                ($($t::make(s),)*)
            }
            fn dig(&self, d: &mut Digest) {
                let ($($t,)*) = self;
                $($t.dig(d);)*
            }
            fn spec(s: &mut Stream, d: &mut Digest, own: &mut i64) {
                $($t::spec(s, d, own);)*
            }
        }
    )*};
}
tuples! { () (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I)
(A B C D E F G H I J) (A B C D E F G H I J K) (A B C D E F G H I J K L) }

type Relay = unsafe extern "C" fn(*mut c_void, *const u8, *mut u8);
#[repr(C)]
struct CcOps {
    size: usize,
    make: unsafe extern "C" fn(u64) -> *mut c_void,
    take: unsafe extern "C" fn(*const u8) -> *mut c_void,
    give: unsafe extern "C" fn(*mut c_void, *mut u8),
    drop: unsafe extern "C" fn(*mut c_void),
    mov: unsafe extern "C" fn(*mut c_void) -> *mut c_void,
    digest: unsafe extern "C" fn(*const c_void) -> u64,
    bounce: unsafe extern "C" fn(*const u8, *mut u8, i32, Relay, *mut c_void),
}
unsafe extern "C" {
    fn bridge_count() -> usize;
    fn bridge_ops(i: usize) -> &'static CcOps;
    fn bridge_live() -> i64;
}

type Any_ = Box<dyn Any>;
/// The same for Rust.
struct RsOps {
    name: &'static str,
    size: usize,
    make: fn(u64) -> Any_,
    spec: fn(u64) -> (u64, i64),
    digest: fn(&Any_) -> u64,
    /// Encodes into this memory.
    encode: unsafe fn(Any_, *mut u8),
    decode: unsafe fn(*const u8) -> Any_,
    /// Encodes as a generated function does for an argument.
    call: fn(Any_, &mut dyn FnMut(*const u8)),
    /// Decodes as a generated function does for what it returns.
    ret: fn(&mut dyn FnMut(*mut u8)) -> Any_,
}
macro_rules! shapes {
    ($($abi:ty;)*) => {
        static SHAPES: &[RsOps] = &[$(RsOps {
            name: stringify!($abi),
            size: <$abi as CrubitAbi>::SIZE,
            make: |seed| Box::new(<<$abi as CrubitAbi>::Value as Val>::make(&mut Stream(seed))),
            spec: |seed| {
                let (mut d, mut own) = (Digest::default(), 0);
                <<$abi as CrubitAbi>::Value as Val>::spec(&mut Stream(seed), &mut d, &mut own);
                (d.0, own)
            },
            digest: |v| {
                let mut d = Digest::default();
                v.downcast_ref::<<$abi as CrubitAbi>::Value>().unwrap().dig(&mut d);
                d.0
            },
            encode: |v, buf| unsafe {
                internal::encode::<$abi>(Default::default(), buf, *v.downcast::<<$abi as CrubitAbi>::Value>().unwrap())
            },
            decode: |buf| unsafe { Box::new(internal::decode::<$abi>(Default::default(), buf)) },
            call: |v, f| {
                let v = *v.downcast::<<$abi as CrubitAbi>::Value>().unwrap();
                f(bridge_rust::unstable_encode!(@ <$abi>::default(), $abi, v).as_ptr() as *const u8)
            },
            ret: |f| Box::new(bridge_rust::unstable_return!(@ <$abi>::default(), $abi, |buf| f(buf))),
        },)*];
    };
}
include!("../shapes.rs");

enum Side {
    Rs(Any_),
    Cc(*mut c_void),
}
struct Slot {
    shape: usize,
    want: u64,
    own: i64,
    v: Side,
}
impl Slot {
    fn digest(&self) -> u64 {
        match &self.v {
            Side::Rs(v) => (SHAPES[self.shape].digest)(v),
            Side::Cc(p) => unsafe { (bridge_ops(self.shape).digest)(*p) },
        }
    }
}
struct RelayCtx {
    shape: usize,
    want: u64,
    hold: bool,
}
/// What C++ gives to Rust while it holds a value: Rust decodes it and gives it back.
unsafe extern "C" fn relay(ctx: *mut c_void, input: *const u8, output: *mut u8) {
    let c = unsafe { &*(ctx as *const RelayCtx) };
    let sh = &SHAPES[c.shape];
    let v = unsafe { (sh.decode)(input) };
    let got = (sh.digest)(&v);
    simkit::check!(got == c.want, "value-changed", "{}: {got:#x} arrived in a callback, not {:#x}", sh.name, c.want);
    if c.hold {
        // Something else crosses meanwhile.
        let w = (sh.make)(77);
        let want = (sh.spec)(77).0;
        (sh.call)(w, &mut |b| unsafe {
            let p = (bridge_ops(c.shape).take)(b);
            let got = (bridge_ops(c.shape).digest)(p);
            simkit::check!(got == want, "value-changed", "{}: {got:#x} arrived in C++ within a callback, not {want:#x}", sh.name);
            (bridge_ops(c.shape).drop)(p);
        });
    }
    unsafe { (sh.encode)(v, output) };
}

const SLOTS: usize = 5;

fn run(case: &Node) {
    reg_reset();
    let cc_live0 = unsafe { bridge_live() };
    thread_local!(static FENCE: (Fenced, Fenced) = (Fenced::new(), Fenced::new()));
    let mut slots: [Option<Slot>; SLOTS] = Default::default();
    let mut crossings = 0;
    FENCE.with(|(fa, fb)| {
        for op in &case.kids {
            simkit::step();
            let i = op.ix(0, SLOTS);
            if op.op == "new" {
                let shape = op.ix(2, SHAPES.len());
                let seed = op.a(3) as u64;
                let (want, own) = (SHAPES[shape].spec)(seed);
                let cc = op.a(1) == 1;
                ev!("slot {i}: make {} from {seed} in {} (owns {own})", SHAPES[shape].name, if cc { "C++" } else { "Rust" });
                drop_slot(slots[i].take());
                let ops = unsafe { bridge_ops(shape) };
                simkit::check!(ops.size == SHAPES[shape].size, "size-differs", "{}: {} bytes in C++, {} in Rust", SHAPES[shape].name, ops.size, SHAPES[shape].size);
                if simkit::failed() {
                    return;
                }
                let v = if cc { Side::Cc(unsafe { (ops.make)(seed) }) } else { Side::Rs((SHAPES[shape].make)(seed)) };
                slots[i] = Some(Slot { shape, want, own, v });
            } else if op.op == "swap" {
                let j = op.ix(1, SLOTS);
                slots.swap(i, j);
            } else if let Some(mut s) = slots[i].take() {
                let sh = &SHAPES[s.shape];
                let ops = unsafe { bridge_ops(s.shape) };
                let how = op.a(1);
                let a = fa.take(sh.size, how & 1 == 1, (how >> 4) as u8 ^ 0x5a);
                let b = fb.take(sh.size, how & 2 == 2, (how >> 5) as u8 ^ 0xa5);
                match op.op.as_str() {
                    "drop" => {
                        ev!("slot {i}: drop");
                        drop_slot(Some(s));
                        check_refs(&slots, "a drop");
                        continue;
                    }
                    "cross" => {
                        crossings += 1;
                        s.v = match s.v {
                            Side::Rs(v) => {
                                ev!("slot {i}: Rust to C++ ({})", how & 7);
                                let mut p = std::ptr::null_mut();
                                if how & 4 == 4 {
                                    (sh.call)(v, &mut |buf| p = unsafe { (ops.take)(buf) });
                                } else {
                                    unsafe { (sh.encode)(v, a.p) };
                                    a.check("encoding in Rust");
                                    let before = a.bytes();
                                    p = unsafe { (ops.take)(a.p) };
                                    simkit::check!(a.bytes() == before, "decode-writes", "{}: decoding in C++ changed the buffer", sh.name);
                                }
                                Side::Cc(p)
                            }
                            Side::Cc(p) => {
                                ev!("slot {i}: C++ to Rust ({})", how & 7);
                                if how & 4 == 4 {
                                    Side::Rs((sh.ret)(&mut |buf| unsafe { (ops.give)(p, buf) }))
                                } else {
                                    unsafe { (ops.give)(p, a.p) };
                                    a.check("encoding in C++");
                                    let before = a.bytes();
                                    let v = unsafe { (sh.decode)(a.p) };
                                    simkit::check!(a.bytes() == before, "decode-writes", "{}: decoding in Rust changed the buffer", sh.name);
                                    Side::Rs(v)
                                }
                            }
                        };
                    }
                    "bounce" => {
                        crossings += 2;
                        let n = op.a(2).rem_euclid(4) as i32;
                        let mut c = RelayCtx { shape: s.shape, want: s.want, hold: how & 8 == 8 };
                        s.v = match s.v {
                            Side::Rs(v) => {
                                ev!("slot {i}: through C++ and back, {n} times through a callback");
                                unsafe {
                                    (sh.encode)(v, a.p);
                                    (ops.bounce)(a.p, b.p, n, relay, &mut c as *mut _ as *mut c_void);
                                    b.check("encoding in C++");
                                    Side::Rs((sh.decode)(b.p))
                                }
                            }
                            Side::Cc(p) => {
                                ev!("slot {i}: through Rust and back");
                                unsafe {
                                    (ops.give)(p, a.p);
                                    relay(&mut c as *mut _ as *mut c_void, a.p, b.p);
                                    b.check("encoding in Rust");
                                    Side::Cc((ops.take)(b.p))
                                }
                            }
                        };
                    }
                    _ => {
                        ev!("slot {i}: move");
                        s.v = match s.v {
                            Side::Rs(v) => Side::Rs(v),
                            Side::Cc(p) => Side::Cc(unsafe { (ops.mov)(p) }),
                        };
                    }
                }
                let side = if matches!(s.v, Side::Rs(_)) { "Rust" } else { "C++" };
                simkit::reached(simkit::hash_bytes((s.shape * 8 + side.len()) as u64, op.op.as_bytes()));
                slots[i] = Some(s);
            }
            if let Some(s) = &slots[i] {
                let got = s.digest();
                simkit::check!(got == s.want, "value-changed", "slot {i} ({}) reads {got:#x}, not {:#x}", SHAPES[s.shape].name, s.want);
            }
            check_refs(&slots, &op.op);
            if simkit::failed() {
                return;
            }
        }
    });
    if simkit::failed() {
        return;
    }
    for s in slots.iter_mut() {
        if let Some(x) = s {
            let got = x.digest();
            simkit::check!(got == x.want, "value-changed", "at the end a {} reads {got:#x}, not {:#x}", SHAPES[x.shape].name, x.want);
        }
        drop_slot(s.take());
    }
    check_refs(&slots, "everything was dropped");
    let cc = unsafe { bridge_live() } - cc_live0;
    simkit::check!(cc == 0, "cc-leak", "{cc} C++ allocations remain");
    if crossings > 1 {
        simkit::nontrivial();
    }
}

fn drop_slot(s: Option<Slot>) {
    if let Some(s) = s {
        match s.v {
            Side::Rs(v) => drop(v),
            Side::Cc(p) => unsafe { (bridge_ops(s.shape).drop)(p) },
        }
    }
}
fn check_refs(slots: &[Option<Slot>], after: &str) {
    let want: i64 = slots.iter().flatten().map(|s| s.own).sum();
    let have = reg_refs();
    simkit::check!(have == want, if have > want { "resource-leak" } else { "resource-lost" }, "after {after}: {have} references to resources are held, {want} values own one");
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    // Few shapes per case, so that values of one meet.
    let few: Vec<i64> = (0..3).map(|_| r.range(0, SHAPES.len() as i64 - 1)).collect();
    for _ in 0..r.range(3, 22) {
        let s = r.range(0, SLOTS as i64 - 1);
        let how = r.range(0, 255);
        kids.push(match r.weighted(&[6, 10, 5, 2, 2, 1]) {
            0 => node("new", &[s, r.range(0, 1), *r.pick(&few), r.range(0, 9999)]),
            1 => node("cross", &[s, how]),
            2 => node("bounce", &[s, how, r.range(0, 3)]),
            3 => node("drop", &[s, how]),
            4 => node("move", &[s, how]),
            _ => node("swap", &[s, r.range(0, SLOTS as i64 - 1)]),
        });
    }
    tree("bridge", &[], kids)
}

fn main() {
    assert_eq!(unsafe { bridge_count() }, SHAPES.len());
    simkit::main(&Check {
        quick_cases: 2_000_000,
        rule: "a case is a history over five slots, each a value of one of 60 nested shapes, made in either language from a seed and then sent, returned, bounced through callbacks, moved and dropped; buffers lie against unreadable pages; non-trivial: at least two crossings; distinct by the whole case",
        states: "distinct (shape, side, operation)",
        real: &["support/bridge.h", "support/crubit_bridge_rust/src/bridge.rs", "support/cc_std_impl/string.rs (BoxedCppStringAbi)", "support/cc_std_impl/conversion_function_helpers.h"],
        stubs: &["std::string is a stand-in of libc++'s size that registers what it owns", "the generated thunks are written by hand, with the macros the generator uses"],
        assumptions: &["clang++ as the C++ compiler, as bridge.h requires", "no allocation fails"],
        expected_probes: &[],
        ..Check::new("C05", generate, run)
    })
}
