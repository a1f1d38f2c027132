//! Instrumented values and a tracking allocator.

use crate::state::{fail, fault, paused, pause};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- injected panics

/// Payload of a panic injected by the simulator.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Injected(pub u64);

/// Unwinds with a payload the harness recognises. Does nothing while already unwinding (a panic
/// there is defined to abort and says nothing about the code under test).
pub fn inject_panic(k: u64) {
    if std::thread::panicking() {
        return;
    }
    fault("panic");
    let p = pause();
    let b = Box::new(Injected(k));
    drop(p);
    std::panic::resume_unwind(b)
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Caught {
    Injected(u64),
    Other(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let _p = pause();
            if let Some(i) = e.downcast_ref::<Injected>() {
                Err(Caught::Injected(i.0))
            } else {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                Err(Caught::Other(m))
            }
        }
    }
}

// ---------------------------------------------------------------- object registry

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    Live,
    Dead,
}

struct Reg {
    objs: Vec<(Life, usize)>,
    at: BTreeMap<usize, u64>,
}
static REG: Mutex<Reg> = Mutex::new(Reg { objs: Vec::new(), at: BTreeMap::new() });

fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    let _p = pause();
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut g)
}

/// Identity of one instrumented value. Ids start at 1 in every case.
pub fn obj_reset() {
    reg(|r| {
        r.objs.clear();
        r.objs.push((Life::Dead, 0));
        r.at.clear();
    })
}
/// Registers a new live object; `addr` 0 means "moves freely".
pub fn obj_new(addr: usize) -> u64 {
    reg(|r| {
        if r.objs.is_empty() {
            r.objs.push((Life::Dead, 0));
        }
        let id = r.objs.len() as u64;
        r.objs.push((Life::Live, addr));
        if addr != 0 {
            if let Some(old) = r.at.insert(addr, id) {
                fail("constructed-over-live", &format!("object {id} constructed over live object {old}"));
            }
        }
        id
    })
}
pub fn obj_drop(id: u64, addr: usize) {
    reg(|r| match r.objs.get(id as usize).copied() {
        None => fail("dropped-garbage", &format!("destructor ran on a value that was never constructed ({})", if id > 1 << 32 { "garbage".into() } else { id.to_string() })),
        Some((Life::Dead, _)) => fail("double-drop", &format!("object {id} destroyed twice")),
        Some((Life::Live, a)) => {
            if a != 0 && addr != 0 && a != addr {
                fail("dropped-elsewhere", &format!("pinned object {id} destroyed at another address"));
            }
            r.at.remove(&a);
            r.objs[id as usize] = (Life::Dead, 0);
        }
    })
}
/// Checks that a value being read is live (and, if pinned, at its address).
pub fn obj_read(id: u64, addr: usize) -> bool {
    reg(|r| match r.objs.get(id as usize).copied() {
        None => {
            fail("read-garbage", "a value that was never constructed was exposed");
            false
        }
        Some((Life::Dead, _)) => {
            fail("read-dead", &format!("destroyed object {id} was exposed"));
            false
        }
        Some((Life::Live, a)) => {
            if a != 0 && addr != 0 && a != addr {
                fail("read-moved", &format!("pinned object {id} seen at another address"));
                return false;
            }
            true
        }
    })
}
pub fn obj_is_live(id: u64) -> bool {
    reg(|r| matches!(r.objs.get(id as usize), Some((Life::Live, _))))
}
pub fn obj_live() -> Vec<u64> {
    reg(|r| r.objs.iter().enumerate().filter(|(_, (l, _))| *l == Life::Live).map(|(i, _)| i as u64).collect())
}
pub fn obj_count() -> u64 {
    reg(|r| r.objs.len() as u64)
}

// ---------------------------------------------------------------- tracking allocator

#[derive(Clone, Copy)]
struct Ent {
    ptr: usize,
    size: usize,
    align: usize,
    freed: bool,
}

struct Table {
    v: UnsafeCell<Vec<Ent>>, // never touched without LOCK; its own memory is untracked
    map: UnsafeCell<Option<BTreeMap<usize, usize>>>,
}
unsafe impl Sync for Table {}
static TABLE: Table = Table { v: UnsafeCell::new(Vec::new()), map: UnsafeCell::new(None) };
static LOCK: AtomicBool = AtomicBool::new(false);
static ANY: AtomicBool = AtomicBool::new(false);
static FAIL_AFTER: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub struct TrackAlloc;

fn tracking() -> bool {
    TRACK.try_with(|t| t.get()).unwrap_or(false) && !paused()
}

fn locked<T>(f: impl FnOnce(&mut Vec<Ent>, &mut BTreeMap<usize, usize>) -> T) -> T {
    let _p = pause();
    BUSY.with(|b| b.set(true));
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = unsafe {
        let m = &mut *TABLE.map.get();
        if m.is_none() {
            *m = Some(BTreeMap::new());
        }
        f(&mut *TABLE.v.get(), m.as_mut().unwrap())
    };
    LOCK.store(false, Ordering::Release);
    BUSY.with(|b| b.set(false));
    r
}

fn busy() -> bool {
    BUSY.try_with(|b| b.get()).unwrap_or(true)
}

unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if busy() || !tracking() {
            return System.alloc(l);
        }
        let left = FAIL_AFTER.load(Ordering::Relaxed);
        if left != usize::MAX {
            if left == 0 {
                FAIL_AFTER.store(usize::MAX, Ordering::Relaxed);
                fault("alloc-failure");
                return std::ptr::null_mut();
            }
            FAIL_AFTER.store(left - 1, Ordering::Relaxed);
        }
        let p = System.alloc(l);
        if !p.is_null() {
            p.write_bytes(0xA5, l.size());
            locked(|v, m| {
                let i = v.len();
                v.push(Ent { ptr: p as usize, size: l.size(), align: l.align(), freed: false });
                m.insert(p as usize, i);
            });
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if busy() || !tracking() {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if busy() || !ANY.load(Ordering::Relaxed) {
            return System.dealloc(p, l);
        }
        let found = locked(|v, m| {
            let Some(&i) = m.get(&(p as usize)) else { return false };
            let e = &mut v[i];
            if e.freed {
                fail("double-free", &format!("a block of {} bytes was freed twice", e.size));
            } else {
                if e.size != l.size() || e.align != l.align() {
                    fail(
                        "free-layout",
                        &format!(
                            "block allocated with size {} align {} was freed with size {} align {}",
                            e.size,
                            e.align,
                            l.size(),
                            l.align()
                        ),
                    );
                }
                e.freed = true;
                p.write_bytes(0xDD, e.size);
            }
            true
        });
        if !found {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if busy() || !ANY.load(Ordering::Relaxed) {
            return System.realloc(p, l, n);
        }
        let tracked = locked(|_, m| m.contains_key(&(p as usize)));
        if !tracked && !tracking() {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Starts a tracked window: allocations of this thread are recorded until `alloc_end`.
pub fn alloc_begin() {
    ANY.store(true, Ordering::Relaxed);
    TRACK.with(|t| t.set(true));
}
/// Is this thread inside a tracked window (ignoring pauses)?
pub fn tracking_now() -> bool {
    TRACK.try_with(|t| t.get()).unwrap_or(false)
}
/// Stops tracking on this thread only.
pub fn alloc_thread_end() {
    TRACK.with(|t| t.set(false));
}
/// The live tracked block starting at `addr`: (size, align).
pub fn alloc_block(addr: usize) -> Option<(usize, usize)> {
    locked(|v, m| m.get(&addr).map(|&i| v[i]).filter(|e| !e.freed).map(|e| (e.size, e.align)))
}
/// Makes the n-th next tracked allocation (0-based) return null, once.
pub fn alloc_fail_after(n: Option<usize>) {
    FAIL_AFTER.store(n.unwrap_or(usize::MAX), Ordering::Relaxed);
}
/// Number of tracked blocks not yet freed and their total size.
pub fn alloc_live() -> (usize, usize) {
    locked(|v, _| {
        let l: Vec<_> = v.iter().filter(|e| !e.freed).collect();
        (l.len(), l.iter().map(|e| e.size).sum())
    })
}
/// Is the address inside a tracked block that is still allocated?
pub fn alloc_contains(addr: usize) -> Option<bool> {
    locked(|v, m| {
        let (_, &i) = m.range(..=addr).next_back()?;
        let e = v[i];
        if addr < e.ptr + e.size.max(1) {
            Some(!e.freed)
        } else {
            None
        }
    })
}
/// Ends the window: reports writes to freed blocks and, if asked, leaks; then really frees.
pub fn alloc_end(check_leaks: bool) {
    TRACK.with(|t| t.set(false));
    FAIL_AFTER.store(usize::MAX, Ordering::Relaxed);
    let ents = locked(|v, m| {
        m.clear();
        std::mem::take(v)
    });
    ANY.store(false, Ordering::Relaxed);
    let mut leaked = (0usize, 0usize);
    for e in &ents {
        if e.freed {
            let s = unsafe { std::slice::from_raw_parts(e.ptr as *const u8, e.size) };
            if s.iter().any(|&b| b != 0xDD) {
                fail("write-after-free", &format!("a freed block of {} bytes was written to", e.size));
            }
            unsafe { System.dealloc(e.ptr as *mut u8, Layout::from_size_align_unchecked(e.size, e.align)) };
        } else {
            leaked = (leaked.0 + 1, leaked.1 + e.size);
        }
    }
    if check_leaks && leaked.0 > 0 {
        fail("leak", &format!("{} block(s), {} bytes never freed", leaked.0, leaked.1));
    }
}
