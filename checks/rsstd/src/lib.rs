//! What the checks of the Rust/C++ support types share: the registry of owned things, the value
//! stream and digest (implemented alike in cpp/sim.h), and guarded memory.
#![allow(static_mut_refs)]
use std::ffi::{c_char, CStr};
use std::sync::Mutex;

#[derive(Clone, Copy)]
struct Obj {
    val: u64,
    refs: i64,
}
static REG: Mutex<Vec<Obj>> = Mutex::new(Vec::new());

fn with<R>(h: u64, what: &str, f: impl FnOnce(&mut Obj) -> R) -> Option<R> {
    let mut r = REG.lock().unwrap_or_else(|e| e.into_inner());
    let Some(o) = r.get_mut((h as usize).wrapping_sub(1)) else {
        drop(r);
        simkit::fail("bad-handle", &format!("{what} of a handle that never existed: {h:#x}"));
        return None;
    };
    if o.refs <= 0 {
        let v = o.val;
        drop(r);
        simkit::fail("use-after-release", &format!("{what} of resource #{h} (value {v:#x}), which was released"));
        return None;
    }
    Some(f(o))
}
#[unsafe(no_mangle)]
pub extern "C" fn reg_new(val: u64) -> u64 {
    let mut r = REG.lock().unwrap_or_else(|e| e.into_inner());
    let _p = simkit::pause();
    r.push(Obj { val, refs: 1 });
    r.len() as u64
}
#[unsafe(no_mangle)]
pub extern "C" fn reg_ref(h: u64) {
    with(h, "copy", |o| o.refs += 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn reg_unref(h: u64) {
    with(h, "release", |o| o.refs -= 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn reg_val(h: u64) -> u64 {
    with(h, "read", |o| o.val).unwrap_or(0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sim_fail(cls: *const c_char, what: *const c_char) {
    let (c, w) = unsafe { (CStr::from_ptr(cls), CStr::from_ptr(what)) };
    simkit::fail(&c.to_string_lossy(), &w.to_string_lossy());
}
pub fn reg_reset() {
    REG.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
/// References held to registered resources.
pub fn reg_refs() -> i64 {
    REG.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|o| o.refs.max(0)).sum()
}
pub fn reg_is_live(h: u64) -> bool {
    REG.lock().unwrap_or_else(|e| e.into_inner()).get((h as usize).wrapping_sub(1)).is_some_and(|o| o.refs > 0)
}

pub struct Stream(pub u64);
impl Stream {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0x1234567)
    }
}
impl Digest {
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
}

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
/// `PAGES` readable pages between two which are not: what touches a byte outside is a crash.
pub struct Fenced {
    base: *mut u8,
}
const PAGE: usize = 4096;
impl Fenced {
    pub const ROOM: usize = PAGE;
    pub fn new() -> Self {
        unsafe {
            let base = mmap(std::ptr::null_mut(), 3 * PAGE, 0, 0x22, -1, 0);
            assert!(!base.is_null() && base as isize != -1);
            assert_eq!(mprotect(base.add(PAGE), PAGE, 3), 0);
            Fenced { base }
        }
    }
    /// `n` bytes which end (or begin) at the fence; everything around them is set to `fill`.
    pub fn take(&self, n: usize, at_end: bool, fill: u8) -> Area {
        assert!(n <= PAGE);
        unsafe {
            self.base.add(PAGE).write_bytes(fill, PAGE);
            let p = self.base.add(if at_end { 2 * PAGE - n } else { PAGE });
            Area { page: self.base.wrapping_add(PAGE), p, n, fill }
        }
    }
}
pub struct Area {
    page: *mut u8,
    pub p: *mut u8,
    pub n: usize,
    fill: u8,
}
impl Area {
    pub fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.p, self.n).to_vec() }
    }
    /// Nothing but the area itself changed.
    pub fn check(&self, what: &str) {
        for i in 0..PAGE {
            let q = self.page.wrapping_add(i);
            if (q as usize) >= self.p as usize && (q as usize) < self.p as usize + self.n {
                continue;
            }
            if unsafe { *q } != self.fill {
                simkit::fail("wrote-outside", &format!("{what}: the byte at offset {} of a buffer of {} bytes was written", q as isize - self.p as isize, self.n));
                return;
            }
        }
    }
}
