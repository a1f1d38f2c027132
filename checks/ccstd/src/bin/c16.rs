#![feature(alloc_error_hook, allocator_api)]
use check_ccstd::env::*;
use simkit::track::*;
use simkit::{ev, Caught, Check, Node, Rng};
use std::cmp::Ordering;
use std::ffi::c_void;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

const NV: usize = 3;

extern "C" {
    fn cxx_vec(big: i32, what: i32, a: *mut c_void, b: *mut c_void, x: i64, y: i64) -> i64;
}

fn keep(t: i64, x: i64) -> bool {
    t.rem_euclid(4) != x.rem_euclid(5)
}

pub trait El: Clone + Ord + Hash + std::fmt::Debug + Unpin + Sized {
    const BIG: bool;
    fn make(tag: i64) -> Self;
    fn tag(&self) -> i64;
    fn set(&mut self, t: i64);
    fn id(&self) -> u64;
    fn live(&self) -> bool;
}
macro_rules! elem {
    ($n:ident, $al:expr, $big:expr) => {
        #[repr(C, align($al))]
        pub struct $n {
            id: u64,
            tag: i64,
            check: i64,
        }
        impl El for $n {
            const BIG: bool = $big;
            fn make(tag: i64) -> Self {
                $n { id: obj_new(0), tag, check: tag ^ 0x5a5a }
            }
            fn tag(&self) -> i64 {
                self.tag
            }
            fn set(&mut self, t: i64) {
                obj_read(self.id, 0);
                self.tag = t;
                self.check = t ^ 0x5a5a;
            }
            fn id(&self) -> u64 {
                self.id
            }
            fn live(&self) -> bool {
                obj_is_live(self.id) && self.check == self.tag ^ 0x5a5a && (self as *const Self as usize) % $al == 0
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                obj_read(self.id, 0);
                user_call("clone");
                Self::make(self.tag)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                obj_drop(self.id, 0);
                user_call("drop");
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                obj_read(self.id, 0);
                obj_read(o.id, 0);
                user_call("eq");
                self.tag == o.tag
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> Ordering {
                obj_read(self.id, 0);
                user_call("cmp");
                self.tag.cmp(&o.tag)
            }
        }
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                user_call("hash");
                self.tag.hash(h)
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}", self.tag)
            }
        }
    };
}
elem!(Small, 8, false);
elem!(Big, 64, true);

fn makes<E: El>(x: i64, n: i64) -> Vec<E> {
    (0..n).map(|i| E::make(x + i)).collect()
}
/// An iterator whose steps can fail and whose size hint is not exact.
struct Src<E>(i64, i64, std::marker::PhantomData<E>);
impl<E> Src<E> {
    fn new(x: i64, n: i64) -> Self {
        Src(x, x + n, std::marker::PhantomData)
    }
}
impl<E: El> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        if self.0 >= self.1 {
            return None;
        }
        user_call("next");
        self.0 += 1;
        Some(E::make(self.0 - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (((self.1 - self.0) / 2) as usize, None)
    }
}

thread_local! {
    /// Elements leaked by a panicking destructor.
    static EXTRA: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

mod three {
    use check_ccstd::std::vector;
    const CXX: bool = true;
    fn rep<E>(v: &vector<E>) -> (usize, usize, usize) {
        let w: [usize; 3] = unsafe { std::ptr::read(v as *const vector<E> as *const [usize; 3]) };
        let s = std::mem::size_of::<E>();
        if w[1] < w[0] || w[2] < w[0] || (w[1] - w[0]) % s != 0 || (w[2] - w[0]) % s != 0 {
            simkit::fail("representation", "the three words are not begin, end, capacity end");
        }
        (w[0], w[1].wrapping_sub(w[0]) / s, w[2].wrapping_sub(w[0]) / s)
    }
    fn block(p: usize) -> Option<(usize, usize)> {
        check_ccstd::env::cpp_block(p)
    }
    fn eqs<E: El>(a: &vector<E>, b: &vector<E>) -> i64 {
        (a == b) as i64
    }
    include!("../c16_ops.rs");
}
mod words {
    use ccstd_lc::vector;
    const CXX: bool = false;
    fn rep<E>(v: &vector<E>) -> (usize, usize, usize) {
        let w: [usize; 3] = unsafe { std::ptr::read(v as *const vector<E> as *const [usize; 3]) };
        (w[0], w[1], w[2])
    }
    fn block(p: usize) -> Option<(usize, usize)> {
        check_ccstd::env::cpp_block(p)
    }
    fn eqs<E: El>(a: &vector<E>, b: &vector<E>) -> i64 {
        (a == b) as i64
    }
    include!("../c16_ops.rs");
}
#[no_mangle]
fn lc_new(n: usize, a: usize) -> *mut u8 {
    unsafe { check_ccstd::crubit_cc_std_internal::std_allocator::cpp_new(n, a) as *mut u8 }
}
#[no_mangle]
fn lc_delete(p: *mut u8, n: usize, a: usize) {
    unsafe { check_ccstd::crubit_cc_std_internal::std_allocator::cpp_delete(p as _, n, a) }
}

const OPS: &[&str] = &[
    "push", "insert", "remove", "swap_remove", "pop", "clear", "truncate", "reserve", "reserve_exact", "try_reserve",
    "try_reserve_exact", "shrink_to_fit", "shrink_to", "append", "split_off", "retain", "retain_mut", "dedup", "dedup_by",
    "dedup_by_key", "extend_from_slice", "extend_from_within", "resize", "resize_with", "extend", "from_iter", "from_slice",
    "with_capacity", "clone", "to_vec", "into_vec", "into_iter", "set", "swap", "drop", "write_tail", "compare", "cxx",
];

fn generate(r: &mut Rng, _: u64) -> Node {
    let layout = r.weighted(&[3, 1]) as i64;
    let big = r.chance(1, 4) as i64;
    let n = r.range(4, 30);
    let mut weights: Vec<u64> = OPS.iter().map(|_| *r.pick(&[0, 1, 1, 2, 4])).collect();
    weights[0] += 3;
    weights[24] += 2;
    let pf = *r.pick(&[0, 0, 1, 2, 4]);
    let af = *r.pick(&[0, 0, 1, 2]);
    // The lengths are tracked roughly, to make most indices valid.
    let mut ops = vec![];
    for _ in 0..n {
        let k = r.range(0, NV as i64 - 1);
        let j = r.range(0, NV as i64 - 1);
        let o = OPS[r.weighted(&weights)];
        let small = |r: &mut Rng| if r.chance(1, 12) { r.range(0, 40) } else { r.range(0, 6) };
        let (x, y) = match o {
            "insert" | "push" => (r.range(0, 20), r.range(0, 3)),
            "set" => (r.range(0, 5), r.range(0, 20)),
            "remove" | "swap_remove" | "split_off" => (r.range(0, 3), 0),
            "extend_from_slice" | "extend" | "from_iter" | "from_slice" => (r.range(0, 20), small(r)),
            "extend_from_within" => {
                let a = r.range(0, 3);
                (a, a + r.range(0, 2))
            }
            "try_reserve" | "try_reserve_exact" => (small(r), r.chance(1, 5) as i64),
            "into_vec" => (r.range(0, 1), r.range(0, 1)),
            "into_iter" => (r.range(0, 4), r.range(0, 15)),
            "write_tail" => (r.range(0, 3), r.range(0, 20)),
            _ => (small(r), r.range(0, 20)),
        };
        if o == "cxx" {
            ops.push(simkit::node("cxx", &[k, j, r.range(0, 11), r.range(0, 20), r.range(0, 20)]));
            continue;
        }
        let p = if r.chance(pf, 8) { r.range(1, 6) } else { 0 };
        let a = if r.chance(af, 8) { r.range(1, 3) } else { 0 };
        ops.push(simkit::node(o, &[k, j, x, y, p, a]));
    }
    simkit::tree("case", &[layout, big], ops)
}

fn run(case: &Node) {
    std::alloc::set_alloc_error_hook(|_| simkit::inject_panic(OOM));
    reset();
    if case.kids.len() > 1 {
        simkit::nontrivial();
    }
    alloc_begin();
    match (case.a(0) == 1, case.a(1) == 1) {
        (false, false) => three::go::<Small>(case),
        (false, true) => three::go::<Big>(case),
        (true, false) => words::go::<Small>(case),
        (true, true) => words::go::<Big>(case),
    }
    alloc_end(!simkit::failed() && EXTRA.with(|e| e.get()) == 0 && !drop_panicked_ever());
}

fn main() {
    simkit::main(&Check {
        quick_cases: 600_000,
        corpus: &["(case 0 0 (extend 0 0 1 3 0 0) (extend 0 0 1 5 3 0) (push 0 0 4 0 0 0))"],
        rule: "a case is a layout of the vector (three pointers, or pointer, length and capacity), an element type (8- or 64-byte aligned) and up to 30 operations on three vectors, from the Rust side (37 kinds) or from C++ code using the same words as std::vector; each may carry one panic at the n-th call into user code (clone, comparison, hash, predicate, generator, iterator step, destructor) or one failing C++ allocation, which unwinds from infallible operations; the reference model is Vec<i64>",
        states: "distinct (length, capacity before the operation, operation, what failed)",
        real: &["support/cc_std_impl/vector.rs in both layouts", "support/cc_std_impl/cpp_std_allocator.rs", "support/cc_std_impl/std_allocator.h cpp_new/cpp_delete", "std::vector of the installed libstdc++ as the other side"],
        stubs: &["generated bindings of std_allocator.h: hand-written extern declarations with the same names", "operator new/delete: a checking allocator", "alloc error handler: unwinds, as with -Zoom=panic"],
        assumptions: &["libstdc++'s std::vector has the three-pointer layout that the default layout targets", "a failing allocation is seen by Rust as a null pointer"],
        expected_probes: &["cxx-op", "try-reserve-failed", "panic-extend", "panic-retain", "panic-clone", "panic-resize", "panic-dedup", "panic-truncate", "oom-push", "oom-append", "oom-clone"],
        ..Check::new("C16", generate, run)
    });
}
