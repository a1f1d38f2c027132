//! C++ memory, user-code faults and scheduling points, all under the simulator.
use simkit::track::*;
use std::alloc::{alloc, dealloc, Layout};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;

/// C++ blocks: address -> (size, align). Each lives inside a larger Rust block, with red zones, so
/// that freeing it through the wrong allocator cannot go unnoticed.
static CPP: Mutex<BTreeMap<usize, (usize, usize)>> = Mutex::new(BTreeMap::new());
const RED: usize = 32;

fn pad(align: usize) -> usize {
    align.max(RED)
}
pub fn reset() {
    CPP.lock().unwrap().clear();
    FAIL.with(|f| f.set((0, 0)));
    CALLS.with(|f| f.set((0, 0, false)));
    DROPS.with(|f| f.set((false, false)));
}
#[no_mangle]
extern "C" fn sim_new(n: usize, align: usize) -> *mut u8 {
    unsafe {
        let pad = pad(align);
        let base = alloc(Layout::from_size_align_unchecked(n + 2 * pad, pad));
        if base.is_null() {
            return base;
        }
        base.write_bytes(0xC7, pad);
        base.add(pad + n).write_bytes(0xC7, pad);
        let p = base.add(pad);
        if tracking_now() {
            let _p = simkit::pause();
            CPP.lock().unwrap().insert(p as usize, (n, align));
        } else {
            // Outside of a case: remember the size in front of the block.
            (p.sub(16) as *mut usize).write(n);
        }
        p
    }
}
#[no_mangle]
extern "C" fn sim_delete(p: *mut u8, n: usize, align: usize) {
    if p.is_null() {
        return;
    }
    let e = {
        let _p = simkit::pause();
        CPP.lock().unwrap().remove(&(p as usize))
    };
    unsafe {
        let Some((size, al)) = e else {
            if tracking_now() {
                simkit::fail("free-unknown", "C++ delete got a pointer that C++ new did not return or that was already deleted");
            } else {
                let size = (p.sub(16) as *mut usize).read();
                dealloc(p.sub(pad(align)), Layout::from_size_align_unchecked(size + 2 * pad(align), pad(align)));
            }
            return;
        };
        if (n != usize::MAX && n != size) || align != al {
            simkit::check!(false, "free-layout", "C++ block of size {size} align {al} deleted with size {n} align {align}");
        }
        let pd = pad(al);
        for (at, what) in [(p.sub(pd), "before"), (p.add(size), "behind")] {
            if std::slice::from_raw_parts(at, pd).iter().any(|&b| b != 0xC7) {
                simkit::check!(false, "out-of-bounds", "bytes {what} a C++ block of {size} were overwritten");
            }
        }
        dealloc(p.sub(pd), Layout::from_size_align_unchecked(size + 2 * pd, pd));
    }
}
/// Size and alignment of the live C++ block at this address.
pub fn cpp_block(p: usize) -> Option<(usize, usize)> {
    CPP.lock().unwrap().get(&p).copied()
}
pub fn cpp_live() -> usize {
    CPP.lock().unwrap().len()
}

thread_local! {
    static FAIL: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static DROPS: Cell<(bool, bool)> = const { Cell::new((false, false)) };
    static CALLS: Cell<(u64, u64, bool)> = const { Cell::new((0, 0, false)) };
}
/// The n-th C++ allocation from now on fails (0: none).
pub fn fail_alloc(n: u64) {
    FAIL.with(|f| f.set((n, 0)))
}
pub fn failed_allocs() -> u64 {
    FAIL.with(|f| f.get().1)
}
pub fn alloc_fails() -> bool {
    FAIL.with(|f| {
        let (n, hit) = f.get();
        if n == 1 {
            f.set((0, hit + 1));
            simkit::fault("alloc-failure");
            return true;
        }
        f.set((n.saturating_sub(1), hit));
        false
    })
}
/// The n-th call into user code from now on panics (0: none).
pub fn fail_call(n: u64) {
    CALLS.with(|c| c.set((n, 0, false)))
}
pub fn new_op() {
    DROPS.with(|d| d.set((false, d.get().1)));
}
/// Did a destructor panic since `new_op`?
pub fn drop_panics() -> bool {
    DROPS.with(|d| d.get().0)
}
pub fn drop_panicked_ever() -> bool {
    DROPS.with(|d| d.get().1)
}
/// Did the planned panic happen?
pub fn fired() -> bool {
    CALLS.with(|c| c.get().2)
}
pub const PANIC: u64 = 4242;
pub const OOM: u64 = 7777;
pub fn user_call(what: &str) {
    if std::thread::panicking() {
        return;
    }
    let hit = CALLS.with(|c| {
        let (n, k, f) = c.get();
        if n == 0 {
            return false;
        }
        let hit = n == k + 1 && !f;
        c.set((n, k + 1, f || hit));
        hit
    });
    if hit {
        if what == "drop" {
            DROPS.with(|d| d.set((true, true)));
        }
        simkit::ev!("panic in {what}");
        simkit::inject_panic(PANIC);
    }
}
#[no_mangle]
extern "C" fn sim_yield(w: i32) {
    simkit::sched::yield_point(["add_shared", "release_shared", "zero_shared", "use_count", "add_weak", "release_weak", "zero_weak", "lock"][w as usize & 7]);
}
#[no_mangle]
extern "C" fn sim_elem_new(at: usize) -> u64 {
    obj_new(at)
}
#[no_mangle]
extern "C" fn sim_elem_clone(id: u64) -> u64 {
    obj_read(id, 0);
    obj_new(0)
}
#[no_mangle]
extern "C" fn sim_elem_drop(id: u64, at: usize) {
    obj_drop(id, at)
}
