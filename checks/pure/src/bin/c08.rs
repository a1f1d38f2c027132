//! C08: the lossy formatter against one-shot decoding, over any chunking and any failing sink.
use lossy_formatter::LossyFormatter;
use simkit::{ev, node, tree, Check, Node, Rng};
use std::cell::RefCell;
use std::fmt::{self, Display, Formatter, Write};

#[path = "/repo/support/rs_std/lossy_formatter_for_bindings.rs"]
#[allow(dead_code)]
mod for_bindings;

#[link(name = "lossycc", kind = "static")]
unsafe extern "C" {
    fn cxx_lf_bytes(f: *mut u8, d: *const u8, n: usize) -> usize;
    fn cxx_lf_byte(f: *mut u8, b: u8) -> bool;
    fn cxx_lf_fill(f: *mut u8, n: usize, b: u8) -> usize;
    fn cxx_lf_flush(f: *mut u8) -> bool;
}

/// A sink which fails the calls named by the plan. What it accepts it keeps.
struct Sink<'a> {
    text: &'a RefCell<String>,
    calls: &'a RefCell<i64>,
    failed: &'a RefCell<u64>,
    plan: &'a [i64],
    /// From this many accepted bytes on, the sink is full.
    room: i64,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        simkit::step();
        let mut c = self.calls.borrow_mut();
        *c += 1;
        let full = self.room >= 0 && (self.text.borrow().len() + s.len()) as i64 > self.room;
        if self.plan.contains(&c) || full {
            simkit::fault(if full { "sink-full" } else { "sink-error" });
            *self.failed.borrow_mut() += 1;
            return Err(fmt::Error);
        }
        self.text.borrow_mut().push_str(s);
        Ok(())
    }
}

/// The text of `bytes`, without an incomplete sequence at the end; and how many bytes that leaves out.
fn decode(bytes: &[u8]) -> (String, usize) {
    let mut cut = bytes.len();
    for k in 1..=3.min(bytes.len()) {
        let tail = &bytes[bytes.len() - k..];
        if let Err(e) = std::str::from_utf8(tail) {
            if e.valid_up_to() == 0 && e.error_len().is_none() {
                cut = bytes.len() - k;
            }
        }
    }
    (String::from_utf8_lossy(&bytes[..cut]).into_owned(), bytes.len() - cut)
}

/// Everything that may have been emitted after all of `segs` (each ended by a flush but the last).
fn text(segs: &[Vec<u8>]) -> String {
    let mut s = String::new();
    for (i, b) in segs.iter().enumerate() {
        if i + 1 < segs.len() {
            s.push_str(&String::from_utf8_lossy(b));
        } else {
            s.push_str(&decode(b).0);
        }
    }
    s
}

struct Io<'a> {
    cxx: bool,
    lf: LossyFormatter<'a, 'a>,
}
impl Io<'_> {
    fn p(&mut self) -> *mut u8 {
        &mut self.lf as *mut _ as *mut u8
    }
    fn slice(&mut self, b: &[u8]) -> usize {
        if self.cxx {
            let (p, n) = (if b.is_empty() { std::ptr::null() } else { b.as_ptr() }, b.len());
            unsafe { cxx_lf_bytes(self.p(), p, n) }
        } else {
            self.lf.write_slice(b)
        }
    }
    fn byte(&mut self, b: u8) -> bool {
        if self.cxx { unsafe { cxx_lf_byte(self.p(), b) } } else { self.lf.write_byte(b).is_ok() }
    }
    fn fill(&mut self, n: usize, b: u8) -> usize {
        if self.cxx { unsafe { cxx_lf_fill(self.p(), n, b) } } else { self.lf.write_fill(n, b) }
    }
    fn flush(&mut self) -> bool {
        if self.cxx { unsafe { cxx_lf_flush(self.p()) } } else { self.lf.flush() }
    }
}

struct Run<'a> {
    case: &'a Node,
    out: &'a RefCell<String>,
    failed: &'a RefCell<u64>,
}

impl Display for Run<'_> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        let case = self.case;
        let outer = format!("{:?}", ());
        let _ = outer;
        // 'scope and 'formatter are the same here; the formatter outlives the wrapper.
        let f: &mut Formatter<'_> = unsafe { &mut *(f as *mut Formatter<'_>) };
        let mut io = Io { cxx: case.ix(0, 2) == 1, lf: LossyFormatter::new(unsafe { std::mem::transmute(f) }) };
        let mut segs: Vec<Vec<u8>> = vec![vec![]];
        for op in &case.kids {
            let before = *self.failed.borrow();
            let had = text(&segs);
            let pending = decode(segs.last().unwrap()).1;
            simkit::reached(simkit::hash_bytes(pending as u64, op.op.as_bytes()) ^ simkit::hash_bytes(1, &segs.last().unwrap()[segs.last().unwrap().len() - pending..]));
            simkit::check!(*self.out.borrow() == had, "wrong-text", "sink has {:?}, expected {had:?}", self.out.borrow());
            let data: Vec<u8>;
            let (done, ok) = match op.op.as_str() {
                "s" => {
                    data = op.args.iter().map(|b| *b as u8).collect();
                    let n = io.slice(&data);
                    (n, n == data.len())
                }
                "b" => {
                    data = vec![op.a(0) as u8];
                    let ok = io.byte(data[0]);
                    (ok as usize, ok)
                }
                "f" => {
                    data = vec![op.a(1) as u8; op.ix(0, 40)];
                    let n = io.fill(data.len(), op.a(1) as u8);
                    (n, n == data.len())
                }
                _ => {
                    let ok = io.flush();
                    let hit = *self.failed.borrow() > before;
                    simkit::check!(ok != hit, "failure-misreported", "flush said {ok}, the sink failed: {hit}");
                    segs.push(vec![]);
                    if pending > 0 {
                        simkit::probe("flush-pending");
                    }
                    if !ok {
                        simkit::check!(*self.out.borrow() == had, "wrong-text", "failed flush: sink has {:?}, expected {had:?}", self.out.borrow());
                        return Err(fmt::Error);
                    }
                    continue;
                }
            };
            ev!("{} -> {done}", op.op);
            let hit = *self.failed.borrow() > before;
            simkit::check!(done <= data.len(), "wrong-count", "reported {done} of {}", data.len());
            simkit::check!(ok != hit, "failure-misreported", "{}: complete={ok}, the sink failed: {hit}", op.op);
            if pending > 0 && !data.is_empty() {
                simkit::probe("joined-pending");
            }
            if ok {
                segs.last_mut().unwrap().extend(&data);
                continue;
            }
            // What was reported as written has reached the sink (but for pending bytes), and of what
            // was not, at most what the next byte or valid run completes.
            simkit::probe("write-failed");
            let mut upto = segs.clone();
            upto.last_mut().unwrap().extend(&data[..done]);
            let want = text(&upto);
            let got = self.out.borrow().clone();
            let mut all = segs.clone();
            all.last_mut().unwrap().extend(&data);
            let all = text(&all);
            simkit::check!(got.starts_with(&want), "lost-text", "{done} bytes reported, sink has {got:?}, expected at least {want:?}");
            simkit::check!(all.starts_with(&got), "wrong-text", "sink has {got:?}, which is not the beginning of {all:?}");
            let extra = got[want.len()..].chars().count();
            simkit::check!(extra <= 1 && (extra == 0 || got.ends_with('\u{fffd}')), "wrong-count", "{done} bytes reported, but the sink has {got:?}, expected {want:?}");
            return Err(fmt::Error);
        }
        if case.a(1) & 1 == 1 {
            let had = text(&segs);
            let pend = decode(segs.last().unwrap()).1;
            if !io.flush() {
                return Err(fmt::Error);
            }
            let want = if pend > 0 { had + "\u{fffd}" } else { had };
            simkit::check!(*self.out.borrow() == want, "wrong-text", "after the flush the sink has {:?}, expected {want:?}", self.out.borrow());
            simkit::check!(io.flush(), "failure-misreported", "second flush failed");
            simkit::check!(*self.out.borrow() == want, "emitted-twice", "second flush emitted text");
        } else {
            let want = text(&segs);
            simkit::check!(*self.out.borrow() == want, "wrong-text", "sink has {:?}, expected {want:?}", self.out.borrow());
        }
        Ok(())
    }
}

const PIECES: &[&[u8]] = &[
    b"a", b"hi ", b"\n", "é".as_bytes(), "€".as_bytes(), "💖".as_bytes(), "\u{fffd}".as_bytes(), &[0xe2, 0x82], &[0xe2], &[0xf0, 0x9f, 0x92],
    &[0xf0, 0x9f], &[0xf0], &[0xc3], &[0x80], &[0xbf, 0xbf], &[0xff], &[0xc0, 0x80], &[0xe0, 0x80], &[0xe0, 0xa0], &[0xe0, 0x9f, 0xbf],
    &[0xed, 0xa0, 0x80], &[0xed, 0x9f, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf4, 0x8f, 0xbf, 0xbf], &[0xf0, 0x80], &[0xf0, 0x90, 0x80, 0x80],
    &[0xf8, 0x88], &[0xc1], &[0xf5], &[0], &[0x7f], &[0xdf, 0xbf], &[0xee, 0x80, 0x80],
];

fn bytes(r: &mut Rng) -> Vec<i64> {
    let mut v = vec![];
    for _ in 0..r.range(0, 6) {
        if r.chance(1, 6) {
            v.push(r.range(0, 255));
        } else {
            v.extend(r.pick(PIECES).iter().map(|b| *b as i64));
        }
    }
    // Cut somewhere, so that the pieces straddle the calls.
    if !v.is_empty() && r.chance(1, 2) {
        v.truncate(1 + r.usize(v.len()));
    }
    v
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    for _ in 0..r.range(1, 9) {
        match r.weighted(&[10, 8, 3, 2]) {
            0 => kids.push(node("s", &bytes(r))),
            1 => {
                for b in bytes(r) {
                    kids.push(node("b", &[b]));
                }
            }
            2 => {
                let b = *r.pick(&[0x61i64, 0x20, 0, 0x7f, 0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xff, 0xf4]);
                kids.push(node("f", &[*r.pick(&[0i64, 1, 2, 3, 4, 5, 9, 17, 33]), b]));
            }
            _ => kids.push(node("F", &[])),
        }
    }
    let mut plan = vec![];
    if r.chance(1, 2) {
        plan.push(r.range(1, 14));
        if r.chance(1, 4) {
            plan.push(r.range(1, 30));
        }
    }
    let room = if r.chance(1, 8) { r.range(0, 20) } else { -1 };
    kids.push(node("plan", &plan));
    kids.push(node("room", &[room]));
    tree("fmt", &[r.range(0, 1), r.range(0, 1)], kids)
}

fn run(case: &Node) {
    let (out, calls, failed) = (RefCell::new(String::new()), RefCell::new(0), RefCell::new(0));
    let plan: Vec<i64> = case.kid("plan").map(|n| n.args.clone()).unwrap_or_default();
    let mut sink = Sink { text: &out, calls: &calls, failed: &failed, plan: &plan, room: case.get("room", -1) };
    let mut ops = case.clone();
    ops.kids.retain(|k| k.op != "plan" && k.op != "room");
    let r = write!(sink, "{}", Run { case: &ops, out: &out, failed: &failed });
    let hit = *failed.borrow() > 0;
    simkit::check!(r.is_err() == hit, "failure-misreported", "whole display: {r:?}, sink failed: {hit}");
    simkit::check!(*failed.borrow() <= 1, "wrote-after-failure", "the sink was called {} times after its failure", *failed.borrow() - 1);
    if ops.kids.len() > 1 {
        simkit::nontrivial();
    }
}

fn main() {
    simkit::main(&Check {
        quick_cases: 3_000_000,
        rule: "a case is a byte sequence cut into slices, bytes, fills and flushes, with a sink that fails at chosen calls or from a chosen size on; through the Rust type or through the C++ header; non-trivial: more than one operation; distinct by the whole case",
        states: "distinct (pending bytes, next operation)",
        real: &["support/rs_std/lossy_formatter.rs", "support/rs_std/lossy_formatter_for_bindings.rs", "support/rs_std/lossy_formatter_for_bindings.h"],
        stubs: &["the sink behind the formatter is simulated"],
        assumptions: &["String::from_utf8_lossy is the reference for decoding at once", "a caller stops writing after a reported failure, as fmt::Error demands"],
        expected_probes: &["flush-pending", "joined-pending", "write-failed"],
        ..Check::new("C08", generate, run)
    })
}
