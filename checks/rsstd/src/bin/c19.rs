//! C19: C++ strings held from Rust, boxed and in place, and views of them.
use ccstring::std::{new_string, raw_string_view, string_view, string_wrapper};
use check_rsstd::{reg_refs, reg_reset};
use ctor::{CtorNew, Emplace, RvalueReference};
use simkit::{ev, node, tree, Check, Node, Rng};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::ffi::c_void;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::pin::Pin;

unsafe extern "C" {
    fn s_buffer_in_place(d: *mut c_void, b: *const i8, n: usize);
    fn s_default_in_place(d: *mut c_void);
    fn s_destroy_in_place(d: *mut c_void);
    fn s_size(s: *const c_void) -> usize;
    fn s_data(s: *const c_void) -> *const i8;
    fn bridge_live() -> i64;
}

enum S {
    Boxed(string_wrapper),
    Placed(Pin<Box<new_string>>),
    /// A C++ object of its own: what C++ passes to the converters.
    Cc(Box<[u64; 3]>),
}
impl S {
    fn bytes(&self) -> Vec<u8> {
        match self {
            S::Boxed(s) => s.as_slice().to_vec(),
            S::Placed(s) => s.as_slice().to_vec(),
            S::Cc(c) => unsafe { std::slice::from_raw_parts(s_data(c.as_ptr() as _) as *const u8, s_size(c.as_ptr() as _)).to_vec() },
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            S::Boxed(_) => "boxed",
            S::Placed(_) => "placed",
            S::Cc(_) => "C++",
        }
    }
}
fn cc(b: &[u8]) -> S {
    let mut c = Box::new([0u64; 3]);
    unsafe { s_buffer_in_place(c.as_mut_ptr() as _, b.as_ptr() as _, b.len()) };
    S::Cc(c)
}
fn drop_s(s: Option<S>) {
    if let Some(S::Cc(mut c)) = s {
        unsafe { s_destroy_in_place(c.as_mut_ptr() as _) }
    }
}

struct Sink<'a> {
    out: String,
    left: &'a Cell<i64>,
    after: &'a Cell<i64>,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left.get() < 0 {
            self.after.set(self.after.get() + 1);
            return Err(fmt::Error);
        }
        self.left.set(self.left.get() - 1);
        if self.left.get() < 0 {
            simkit::fault("sink-error");
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// Writes through a sink that fails at a given write, and checks what was written.
fn show(what: &str, v: &dyn fmt::Display, want: Option<&str>, fail_at: i64) -> String {
    let (left, after) = (Cell::new(if fail_at <= 0 { i64::MAX } else { fail_at - 1 }), Cell::new(0));
    let mut k = Sink { out: String::new(), left: &left, after: &after };
    let r = write!(k, "{v}");
    let hit = left.get() < 0;
    simkit::check!(r.is_err() == hit, "failure-misreported", "{what}: {r:?}, and the sink failed: {hit}");
    simkit::check!(after.get() == 0, "wrote-after-failure", "{what}: wrote {} times after the sink failed", after.get());
    if let Some(w) = want {
        if hit {
            simkit::check!(w.starts_with(&k.out), "wrong-text", "{what}: wrote {:?} before the failure, expected {w:?}", k.out);
        } else {
            simkit::check!(w == k.out, "wrong-text", "{what}: wrote {:?}, expected {w:?}", k.out);
        }
    }
    if hit { String::new() } else { k.out }
}
struct D<T>(T);
impl<T: fmt::Debug> fmt::Display for D<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
fn hash(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// A view of these bytes reads like the bytes.
fn check_view(v: string_view<'_>, b: &[u8], what: &str) {
    simkit::check!(v.as_bytes() == b && v.as_slice() == b && v.as_ref() == b && &*v == b, "wrong-bytes", "{what}: a view of {b:?} reads {:?}", v.as_bytes());
    simkit::check!(v.len() == b.len() && v.is_empty() == b.is_empty(), "wrong-length", "{what}: a view of {} bytes has {}", b.len(), v.len());
    simkit::check!(v.to_str().ok() == std::str::from_utf8(b).ok() && v.to_string().ok() == String::from_utf8(b.to_vec()).ok(), "wrong-text", "{what}: text of {b:?}");
    simkit::check!(v.to_vec() == b && v.as_os_str().as_encoded_bytes() == b && v.to_os_string().as_encoded_bytes() == b, "wrong-bytes", "{what}: copies of {b:?}");
    simkit::check!(v.utf8_chunks().map(|c| c.valid().len() + c.invalid().len()).sum::<usize>() == b.len(), "wrong-bytes", "{what}: chunks of {b:?}");
    let raw = v.into_raw();
    simkit::check!(unsafe { raw.len() } == b.len() && unsafe { &*raw.as_raw_bytes() } == b, "wrong-bytes", "{what}: the raw view of {b:?}");
    simkit::check!(unsafe { raw.as_live() } == v, "wrong-bytes", "{what}: a view made live again differs");
    simkit::check!(unsafe { raw.to_str() }.map(|s| unsafe { (*s).as_bytes().to_vec() }).ok() == std::str::from_utf8(b).ok().map(|s| s.as_bytes().to_vec()), "wrong-text", "{what}: raw text of {b:?}");
    // C++ may also have a null pointer with no length.
    if b.is_empty() {
        let nul = raw_string_view { __data_: std::ptr::null(), __size_: 0 };
        simkit::check!(unsafe { nul.as_live() } == *"" && unsafe { nul.len() } == 0, "wrong-bytes", "a null view is not empty");
        simkit::check!(!std::hint::black_box(unsafe { &*nul.as_raw_bytes() }.as_ptr()).is_null(), "null-slice", "a null view reads as a null slice");
    }
}
fn check_text(s: &S, b: &[u8], fail_at: i64) {
    let lossy = String::from_utf8_lossy(b);
    let ascii = b.iter().all(|c| (0x20..0x7f).contains(c) && !b"\"'\\".contains(c));
    let quoted = format!("\"{lossy}\"");
    let v = string_view::from(b);
    show("view", &v.display(), Some(&lossy), fail_at);
    let dv = show("debug of a view", &D(v), ascii.then_some(quoted.as_str()), fail_at);
    match s {
        S::Boxed(s) => {
            show("boxed", &s.display(), Some(&lossy), fail_at);
            show("debug of a boxed", &D(s), Some(&format!("cc_std::string_wrapper({b:?})")), 0);
            simkit::check!(s.to_str().ok() == std::str::from_utf8(b).ok() && s.to_string().ok() == String::from_utf8(b.to_vec()).ok(), "wrong-text", "text of {b:?}");
            simkit::check!(s.to_vec() == b && s.as_os_str().as_encoded_bytes() == b && s.to_os_string().as_encoded_bytes() == b, "wrong-bytes", "copies of {b:?}");
        }
        S::Placed(s) => {
            show("placed", &s.display(), Some(&lossy), fail_at);
            let d = show("debug of a placed", &D(&**s), ascii.then_some(quoted.as_str()), fail_at);
            simkit::check!(fail_at > 0 || d == dv, "wrong-text", "debug of the string {d}, of a view of it {dv}");
            simkit::check!(s.to_str().ok() == std::str::from_utf8(b).ok() && s.to_string().ok() == String::from_utf8(b.to_vec()).ok(), "wrong-text", "text of {b:?}");
            simkit::check!(s.to_vec() == b, "wrong-bytes", "a copy of {b:?}");
        }
        S::Cc(_) => {}
    }
}

const SLOTS: usize = 5;
fn run(case: &Node) {
    reg_reset();
    let cc0 = unsafe { bridge_live() };
    let mut slots: [Option<(S, Vec<u8>)>; SLOTS] = Default::default();
    for op in &case.kids {
        simkit::step();
        let (i, j) = (op.ix(0, SLOTS), op.ix(1, SLOTS));
        match op.op.as_str() {
            "new" => {
                let b: Vec<u8> = op.args[3.min(op.args.len())..].iter().map(|x| *x as u8).collect();
                drop_s(slots[i].take().map(|s| s.0));
                ev!("slot {i}: new {} of {b:?}", op.a(1));
                let text = std::str::from_utf8(&b).ok();
                let s = match (op.a(1).rem_euclid(3), op.a(2).rem_euclid(4), text) {
                    (0, 0, Some(t)) => S::Boxed(t.into()),
                    (0, 1, Some(t)) => S::Boxed(t.to_string().into()),
                    (0, 2, Some(t)) => S::Boxed((&t.to_string()).into()),
                    (0, 3, _) => S::Boxed((&b).into()),
                    (0, 0, _) if b.is_empty() => S::Boxed(Default::default()),
                    (0, _, _) => S::Boxed(b.as_slice().into()),
                    (1, 0, Some(t)) => S::Placed(Box::emplace(new_string::ctor_new(t))),
                    (1, _, _) if b.is_empty() => S::Placed(Box::emplace(new_string::ctor_new(()))),
                    (1, _, _) => S::Placed(Box::emplace(new_string::ctor_new(b.as_slice()))),
                    _ => cc(&b),
                };
                slots[i] = Some((s, b));
            }
            "drop" => {
                ev!("slot {i}: drop");
                drop_s(slots[i].take().map(|s| s.0));
            }
            // A copy of slot i in slot j.
            "copy" if i != j && slots[i].is_some() => {
                let (s, b) = slots[i].as_ref().unwrap();
                let c = match s {
                    S::Boxed(s) => S::Boxed(s.clone()),
                    S::Placed(s) => S::Placed(Box::emplace(new_string::ctor_new(&**s))),
                    S::Cc(_) => cc(b),
                };
                ev!("slot {i}: copied ({}) to {j}", c.kind());
                let b = b.clone();
                drop_s(slots[j].take().map(|s| s.0));
                slots[j] = Some((c, b));
            }
            // Slot i moves into slot j. What a C++ move leaves behind is still a string.
            "move" if i != j && slots[i].is_some() => {
                drop_s(slots[j].take().map(|s| s.0));
                let (s, b) = slots[i].take().unwrap();
                ev!("slot {i}: {} moved to {j}", s.kind());
                slots[j] = Some(match s {
                    S::Boxed(s) if op.a(2) & 1 == 0 => (S::Boxed(s), b),
                    // As cc_bindings_from_rs passes a string to C++.
                    S::Boxed(s) => {
                        let mut c = Box::new([0u64; 3]);
                        unsafe { ccstring::string_impl::rust_string_to_cpp_string(&s as *const _ as _, c.as_mut_ptr() as _) };
                        let left = s.as_slice().len();
                        ev!("{left} bytes left behind");
                        drop(s);
                        (S::Cc(c), b)
                    }
                    S::Placed(mut s) => {
                        let n = Box::emplace(new_string::ctor_new(RvalueReference(s.as_mut())));
                        let left = s.as_slice().len();
                        ev!("{left} bytes left behind");
                        slots[i] = Some((S::Placed(s), vec![0; left]));
                        (S::Placed(n), b)
                    }
                    S::Cc(mut c) => {
                        let mut out = std::mem::MaybeUninit::<string_wrapper>::uninit();
                        unsafe {
                            ccstring::string_impl::cpp_string_to_rust_string(c.as_mut_ptr() as _, out.as_mut_ptr() as _);
                            s_destroy_in_place(c.as_mut_ptr() as _);
                            (S::Boxed(out.assume_init()), b)
                        }
                    }
                });
                if let Some((s, b)) = &mut slots[i] {
                    // Valid but unspecified: take it as it is.
                    *b = s.bytes();
                }
            }
            "write" => {
                if let Some((S::Placed(s), b)) = &mut slots[i] {
                    let m = s.as_mut().as_mut_slice();
                    simkit::check!(m.len() == b.len(), "wrong-length", "a mutable slice of {} bytes has {}", b.len(), m.len());
                    if !m.is_empty() && m.len() == b.len() {
                        let k = op.ix(1, m.len());
                        m[k] = op.a(2) as u8;
                        b[k] = op.a(2) as u8;
                        ev!("slot {i}: byte {k} set");
                    }
                }
            }
            "cmp" => {
                if let (Some((x, bx)), Some((y, by))) = (&slots[i], &slots[j]) {
                    let eq = bx == by;
                    ev!("compare {} {i} and {} {j}", x.kind(), y.kind());
                    let vx = string_view::from(bx.as_slice());
                    let vy = string_view::from(by.as_slice());
                    simkit::check!((vx == vy) == eq && vx.cmp(&vy) == bx.cmp(by) && vx.partial_cmp(&vy) == Some(bx.cmp(by)), "wrong-order", "views of {bx:?} and {by:?}: {:?}", vx.cmp(&vy));
                    simkit::check!(vx == *by.as_slice() && eq || vx != *by.as_slice() && !eq, "wrong-equality", "a view of {bx:?} and {by:?}");
                    simkit::check!(hash(&vx) == hash(bx.as_slice()), "wrong-hash", "of a view of {bx:?}");
                    match (x, y) {
                        (S::Boxed(x), S::Boxed(y)) => simkit::check!((x == y) == eq && (x != y) != eq, "wrong-equality", "boxed {bx:?} and {by:?}"),
                        (S::Placed(x), S::Placed(y)) => {
                            simkit::check!((**x == **y) == eq && x.cmp(&y) == bx.cmp(by), "wrong-order", "placed {bx:?} and {by:?}: {:?}", x.cmp(&y));
                            simkit::check!((hash(&**x) == hash(&**y)) == eq && hash(&**x) == hash(bx.as_slice()), "wrong-hash", "of placed {bx:?} and {by:?}");
                        }
                        (S::Placed(x), _) => {
                            simkit::check!((**x == vy) == eq && (**x == *by.as_slice()) == eq && (**x == by.as_slice()) == eq, "wrong-equality", "placed {bx:?} and {by:?}");
                            if let Ok(t) = std::str::from_utf8(by) {
                                simkit::check!((**x == *t) == eq && (**x == t) == eq, "wrong-equality", "placed {bx:?} and {t:?}");
                            }
                        }
                        _ => {}
                    }
                    simkit::reached(simkit::hash_bytes(x.kind().len() as u64 * 8 + y.kind().len() as u64, b"cmp") ^ bx.cmp(by) as u64);
                }
            }
            "text" => {
                if let Some((s, b)) = &slots[i] {
                    ev!("slot {i}: shown, the sink fails at {}", op.a(1));
                    check_text(s, b, op.a(1));
                    match s {
                        S::Boxed(s) => check_view(string_view::from(s.as_slice()), b, "boxed"),
                        S::Placed(s) => check_view(string_view::from(s.as_slice()), b, "placed"),
                        _ => check_view(string_view::from(b.as_slice()), b, "bytes"),
                    }
                    if let Ok(t) = std::str::from_utf8(b) {
                        check_view(string_view::from(t), b, "str");
                    }
                    if let Ok(c) = std::ffi::CString::new(b.clone()) {
                        check_view(string_view::from(c.as_c_str()), b, "CStr");
                    }
                }
            }
            _ => {}
        }
        for (k, s) in slots.iter().enumerate() {
            if let Some((s, b)) = s {
                simkit::check!(s.bytes() == *b, "wrong-bytes", "slot {k} ({}) holds {:?}, not {b:?}", s.kind(), s.bytes());
                simkit::reached(simkit::hash_bytes(s.kind().len() as u64, op.op.as_bytes()) ^ b.len().min(17) as u64);
            }
        }
        let want = slots.iter().flatten().count() as i64;
        simkit::check!(reg_refs() == want, if reg_refs() > want { "string-leak" } else { "string-lost" }, "after {}: {} strings live, {want} expected", op.op, reg_refs());
        if simkit::failed() {
            return;
        }
    }
    for s in slots.iter_mut() {
        drop_s(s.take().map(|s| s.0));
    }
    simkit::check!(reg_refs() == 0, "string-leak", "at the end {} strings live", reg_refs());
    let n = unsafe { bridge_live() } - cc0;
    simkit::check!(n == 0, "cc-leak", "{n} C++ allocations remain");
    if case.kids.len() > 3 {
        simkit::nontrivial();
    }
}

const PIECES: &[&[u8]] = &[
    b"a", b"hello", b"", b"\0", b"\"", b"\\", b"\n\t", "é".as_bytes(), "€".as_bytes(), "💖".as_bytes(), &[0x80], &[0xff], &[0xe2, 0x82], &[0xf0, 0x9f, 0x92], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], b"0123456789abcdef",
    &[0x7f], &[0x1b],
];
fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    let mut vocab: Vec<Vec<i64>> = vec![];
    for _ in 0..2 {
        let mut v = vec![];
        for _ in 0..r.range(0, 4) {
            v.extend(r.pick(PIECES).iter().map(|b| *b as i64));
        }
        vocab.push(v);
    }
    for _ in 0..r.range(3, 18) {
        let s = r.range(0, SLOTS as i64 - 1);
        let t = r.range(0, SLOTS as i64 - 1);
        kids.push(match r.weighted(&[6, 2, 4, 5, 2, 5, 3]) {
            0 => {
                let mut a = vec![s, r.range(0, 2), r.range(0, 3)];
                let mut v = r.pick(&vocab).clone();
                if r.chance(1, 4) && !v.is_empty() {
                    let k = r.usize(v.len());
                    v.truncate(k);
                }
                a.extend(v);
                node("new", &a)
            }
            1 => node("drop", &[s]),
            2 => node("copy", &[s, t]),
            3 => node("move", &[s, t, r.range(0, 1)]),
            4 => node("write", &[s, r.range(0, 30), r.range(0, 255)]),
            5 => node("cmp", &[s, t]),
            _ => node("text", &[s, if r.chance(1, 2) { 0 } else { r.range(1, 6) }]),
        });
    }
    tree("string", &[], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 1_000_000,
        rule: "a case is a history over five slots of C++ strings (boxed, placed in pinned memory, or plain C++ objects behind the converters): made, copied, moved, converted, written, compared, hashed, viewed, shown through a sink that fails at some write, dropped; non-trivial: more than three operations; distinct by the whole case",
        states: "distinct (kind, operation, length class) and comparison outcomes",
        real: &["support/cc_std_impl/string.rs", "support/cc_std_impl/string_view.rs", "support/cc_std_impl/lossy_utf8.rs", "support/cc_std_impl/slice_ptr.rs", "support/cc_std_impl/conversion_function_helpers.h"],
        stubs: &["std::string is a stand-in of libc++'s size that points to itself and registers its storage", "raw_string_view is written as the generator writes it for libc++"],
        assumptions: &["a moved-from C++ string holds any value", "no allocation fails"],
        expected_probes: &[],
        ..Check::new("C19", generate, run)
    })
}
