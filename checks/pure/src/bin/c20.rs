//! C20: interned values are equal exactly when their contents are, over any history of interning
//! into shared arenas, with failing allocations and panicking comparisons.
use bumpalo::Bump;
use interner::{Interned, Interner};
use simkit::{ev, node, Caught, Check, Node, Rng};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static INJECT: Cell<i64> = const { Cell::new(0) };
}
/// A step in which the user's code may fail.
fn tick() {
    simkit::step();
    let n = INJECT.get();
    if n > 0 && !std::thread::panicking() {
        INJECT.set(n - 1);
        if n == 1 {
            simkit::inject_panic(9);
        }
    }
}

/// A key whose hash is poor, so that equality decides, and whose hash and equality may fail. Which
/// unequal keys a hash table compares depends on its seed, so that only comparisons of equal ones
/// count as steps.
#[derive(Clone, Copy, Debug)]
struct K(u32);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        (self.0 % 3).hash(h)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        if self.0 == o.0 {
            tick();
        }
        self.0 == o.0
    }
}
impl Eq for K {}
/// One whose hash may fail, for lists.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct L(u32);
impl Hash for L {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        (self.0 % 3).hash(h)
    }
}

/// As aligned as the arena's chunks; with more, the room it takes would depend on their address.
#[repr(align(16))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Wide(u8);

/// What a handle refers to, in plain words.
type Content = Vec<u32>;

struct Entry<'a, T: ?Sized> {
    handle: Interned<'a, T>,
    content: Content,
    at: *const u8,
    interner: usize,
}

/// The handles of one type, from any interner.
struct Table<'a, T: ?Sized> {
    name: &'static str,
    interners: Vec<(usize, Interner<'a, T>)>,
    entries: Vec<Entry<'a, T>>,
    read: Box<dyn Fn(&T) -> Content + 'a>,
}

fn hash_of<T: ?Sized>(h: &Interned<T>) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

impl<'a, T: ?Sized + Debug> Table<'a, T> {
    fn new(name: &'static str, arenas: &'a [Bump], n: usize, read: impl Fn(&T) -> Content + 'a) -> Self {
        let interners = (0..n).map(|i| (i % arenas.len(), Interner::new(&arenas[i % arenas.len()]))).collect();
        Table { name, interners, entries: vec![], read: Box::new(read) }
    }

    /// Interns `content` with `f`, after which everything handed out so far must still be right.
    fn intern(&mut self, arenas: &'a [Bump], op: &Node, content: Content, f: impl FnOnce(&Interner<'a, T>) -> Interned<'a, T>) {
        let k = op.ix(0, self.interners.len());
        let (arena, interner) = &self.interners[k];
        let bump = &arenas[*arena];
        let known = self.entries.iter().position(|e| e.interner == k && e.content == content);
        let room = (bump.allocated_bytes(), bump.chunk_capacity());
        INJECT.set(op.a(2).max(0));
        let got = simkit::catch(|| f(interner));
        let fired = op.a(2) > 0 && INJECT.get() == 0;
        INJECT.set(0);
        match got {
            Err(Caught::Injected(9)) if fired => {
                ev!("{}{k}: comparison failed", self.name);
                simkit::probe("comparison-failed");
                return;
            }
            Err(Caught::Other(m)) if m.contains("out of memory") && bump.allocation_limit().is_some() && known.is_none() => {
                ev!("{}{k}: no memory", self.name);
                simkit::fault("out-of-memory");
                simkit::probe("out-of-memory");
                return;
            }
            Err(e) => {
                // (Includes panics of the harness's own assertions.)
                simkit::fail("wrong-failure", &format!("{}{k}: interning {content:?} gave {e:?}", self.name));
                return;
            }
            Ok(handle) => {
                simkit::check!(!fired, "wrong-failure", "{}{k}: an injected panic was lost", self.name);
                let at = handle.inner() as *const T as *const u8;
                if let Some(e) = known.map(|i| &self.entries[i]) {
                    simkit::check!(e.at == at, "stored-again", "{}{k}: {content:?} moved", self.name);
                    simkit::check!(room == (bump.allocated_bytes(), bump.chunk_capacity()), "stored-again", "{}{k}: {content:?} was there, but memory was taken from the arena", self.name);
                    simkit::probe("known-content");
                } else {
                    simkit::probe("new-content");
                }
                ev!("{}{k}: {content:?} known {}", self.name, known.is_some());
                self.entries.push(Entry { handle, content, at, interner: k });
            }
        }
        self.check_last();
    }

    /// The newest handle against all others.
    fn check_last(&self) {
        let n = self.entries.len() - 1;
        let e = &self.entries[n];
        for (i, o) in self.entries.iter().enumerate() {
            let (a, b) = (&e.handle, &o.handle);
            let ord = a.cmp(b);
            let same = e.content == o.content;
            if i != n && e.at == o.at && !same {
                simkit::probe("same-address");
            }
            if same && e.interner == o.interner {
                simkit::check!(a == b && b == a, "not-equal", "{}: two handles of {:?} from one interner are not equal", self.name, e.content);
            }
            if !same {
                simkit::check!(a != b && b != a, "equal", "{}: handles of {:?} and {:?} are equal", self.name, e.content, o.content);
                if e.interner != o.interner {
                    simkit::probe("across-interners");
                }
            }
            simkit::check!((a == b) == ord.is_eq(), "order", "{}: {:?} and {:?}: equality and order disagree", self.name, e.content, o.content);
            simkit::check!(b.cmp(a) == ord.reverse() && a.partial_cmp(b) == Some(ord), "order", "{}: {:?} and {:?}: order is not antisymmetric", self.name, e.content, o.content);
            if a == b {
                simkit::check!(hash_of(a) == hash_of(b), "hash", "{}: equal handles of {:?} have different hashes", self.name, e.content);
            }
        }
    }

    /// Every handle still shows its content, at its place; collections keyed by handles hold each
    /// content once.
    fn check_all(&self) {
        for e in &self.entries {
            let now = e.handle.inner();
            let text = (self.read)(now);
            simkit::check!(text == e.content, "content-changed", "{}: {:?} became {text:?}", self.name, e.content);
            simkit::check!(now as *const T as *const u8 == e.at && *e.handle as *const T as *const u8 == e.at, "content-changed", "{}: {:?} moved", self.name, e.content);
            let shown = format!("{:?}", e.handle);
            simkit::check!(shown == format!("{now:?}"), "content-changed", "{}: {:?} is shown as {shown}", self.name, e.content);
        }
        for k in 0..self.interners.len() {
            let mine: Vec<&Entry<T>> = self.entries.iter().filter(|e| e.interner == k).collect();
            let distinct: BTreeSet<&Content> = mine.iter().map(|e| &e.content).collect();
            let by_hash: HashSet<Interned<T>> = mine.iter().map(|e| e.handle).collect();
            let by_order: BTreeSet<Interned<T>> = mine.iter().map(|e| e.handle).collect();
            simkit::check!(by_hash.len() == distinct.len(), "collection", "{}{k}: {} contents, a hash set of their handles has {}", self.name, distinct.len(), by_hash.len());
            simkit::check!(by_order.len() == distinct.len(), "collection", "{}{k}: {} contents, an ordered set of their handles has {}", self.name, distinct.len(), by_order.len());
            let sorted: Vec<Interned<T>> = by_order.into_iter().collect();
            for (i, a) in sorted.iter().enumerate() {
                for b in &sorted[i + 1..] {
                    simkit::check!(a < b && !(b < a), "order", "{}{k}: the order of handles is not total", self.name);
                }
            }
            simkit::reached(simkit::mix(simkit::hash_bytes(k as u64, self.name.as_bytes()) ^ (distinct.len() as u64) << 8 ^ mine.len() as u64));
        }
    }
}

const BASES: [&str; 4] = ["abcabcabcabcabcabcabcabcabcabcabcabc", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "äé€𝄞äé€𝄞äé€𝄞äé€𝄞", "\0\u{1}\0\0\u{7f}zz"];

fn text(id: i64) -> String {
    let id = id.unsigned_abs() as usize;
    let base: Vec<char> = BASES[id % 4].chars().collect();
    let len = (id / 4) % 12;
    let from = (id / 48) % 3;
    base[from.min(base.len())..(from + len).min(base.len())].iter().collect()
}
fn words(id: i64) -> Vec<u32> {
    let id = id.unsigned_abs() as usize;
    (0..(id / 2) % 5).map(|i| ((id / 10 >> i) & 1) as u32 + (id as u32 & 1)).collect()
}

fn simulate(case: &Node) {
    let arenas: Vec<Bump> = (0..1 + case.ix(0, 2)).map(|_| Bump::new()).collect();
    let n = 1 + case.ix(1, 2) * arenas.len();
    let mut strs = Table::<str>::new("str", &arenas, n, |s| s.bytes().map(|b| b as u32).collect());
    let mut bytes = Table::<[u8]>::new("bytes", &arenas, n, |s| s.iter().map(|b| *b as u32).collect());
    let mut keys = Table::<K>::new("key", &arenas, n, |k| vec![k.0]);
    let mut lists = Table::<[L]>::new("keys", &arenas, n, |k| k.iter().map(|k| k.0).collect());
    let mut units = Table::<()>::new("unit", &arenas, n, |_| vec![]);
    let mut counts = Table::<[()]>::new("units", &arenas, n, |s| vec![s.len() as u32]);
    let mut wides = Table::<Wide>::new("wide", &arenas, n, |w| vec![w.0 as u32]);
    let mut paths = Table::<[Interned<str>]>::new("paths", &arenas, n, |p| p.iter().flat_map(|h| h.bytes().map(|b| b as u32).chain([999])).collect());
    for op in &case.kids {
        let id = op.a(1);
        match op.op.as_str() {
            "str" => {
                let mut s = text(id);
                let content: Content = s.bytes().map(|b| b as u32).collect();
                if s.is_empty() {
                    simkit::probe("empty");
                }
                strs.intern(&arenas, op, content, |i| i.intern_str(&s));
                // What it was made from goes away.
                // SAFETY: overwritten with valid text.
                unsafe { s.as_bytes_mut() }.fill(b'#');
            }
            "bytes" => {
                let mut s: Vec<u8> = text(id).into_bytes();
                let content: Content = s.iter().map(|b| *b as u32).collect();
                bytes.intern(&arenas, op, content, |i| i.intern_slice(&s));
                s.fill(b'#');
            }
            "key" => {
                let k = (id.unsigned_abs() % 24) as u32;
                keys.intern(&arenas, op, vec![k], |i| i.intern(K(k)));
            }
            "keys" => {
                let w = words(id);
                let mut s: Vec<L> = w.iter().map(|k| L(*k)).collect();
                lists.intern(&arenas, op, w, |i| i.intern_slice(&s));
                s.fill(L(77));
            }
            "unit" => units.intern(&arenas, op, vec![], |i| i.intern(())),
            "units" => {
                let len = (id.unsigned_abs() % 4) as usize;
                counts.intern(&arenas, op, vec![len as u32], |i| i.intern_slice(&[(); 4][..len]));
            }
            "wide" => {
                let b = (id.unsigned_abs() % 6) as u8;
                wides.intern(&arenas, op, vec![b as u32], |i| i.intern(Wide(b)));
            }
            // Lists of handles of one interner.
            "paths" => {
                let mine: Vec<usize> = (0..strs.entries.len()).filter(|i| strs.entries[*i].interner == 0).collect();
                if mine.is_empty() {
                    continue;
                }
                let picks: Vec<usize> = (0..(id.unsigned_abs() % 4) as usize).map(|j| mine[(id.unsigned_abs() as usize / 4 >> j) % mine.len()]).collect();
                let s: Vec<Interned<str>> = picks.iter().map(|p| strs.entries[*p].handle).collect();
                let content: Content = picks.iter().flat_map(|p| strs.entries[*p].content.iter().copied().chain([999])).collect();
                paths.intern(&arenas, op, content, |i| i.intern_slice(&s));
            }
            // Others use the arena too.
            "fill" => {
                let bump = &arenas[op.ix(0, arenas.len())];
                let size = id.unsigned_abs() as usize % 700;
                let align = 1 << (op.a(2).unsigned_abs() % 5);
                if let Ok(p) = bump.try_alloc_layout(std::alloc::Layout::from_size_align(size, align).unwrap()) {
                    // SAFETY: `size` bytes were allocated there.
                    unsafe { p.as_ptr().write_bytes(0xa5, size) };
                }
                ev!("fill {size} {align}");
            }
            "limit" => {
                let bump = &arenas[op.ix(0, arenas.len())];
                bump.set_allocation_limit(Some(bump.allocated_bytes() + id.unsigned_abs() as usize % 3));
                // What is left of the current chunk goes as well.
                let left = bump.chunk_capacity().saturating_sub(op.a(2).unsigned_abs() as usize % 40);
                let _ = bump.try_alloc_layout(std::alloc::Layout::from_size_align(left, 1).unwrap());
                ev!("limit");
            }
            _ => {
                arenas[op.ix(0, arenas.len())].set_allocation_limit(None);
                ev!("unlimited");
            }
        }
        if simkit::failed() {
            return;
        }
    }
    strs.check_all();
    bytes.check_all();
    keys.check_all();
    lists.check_all();
    units.check_all();
    counts.check_all();
    wides.check_all();
    paths.check_all();
}

fn run(case: &Node) {
    if case.size() > 4 {
        simkit::nontrivial();
    }
    if let Err(e) = simkit::catch(|| simulate(case)) {
        INJECT.set(0);
        simkit::fail("harness-panic", &format!("{e:?}: {}", simkit::last_panic()));
    }
}

fn generate(r: &mut Rng, idx: u64) -> Node {
    let focus = r.below(3);
    let faults = r.chance(1, 2);
    let few = r.chance(1, 2);
    let mut kids = vec![];
    let len = r.range(2, if idx % 64 == 0 { 120 } else { 30 });
    for _ in 0..len {
        let w: &[u64] = match focus {
            0 => &[5, 3, 3, 3, 1, 2, 2, 2, 2, 1, 1],
            1 => &[8, 1, 0, 0, 0, 0, 0, 4, 2, 0, 1],
            _ => &[1, 1, 8, 8, 0, 1, 1, 1, 1, 1, 1],
        };
        let name = ["str", "bytes", "key", "keys", "unit", "units", "wide", "paths", "fill", "limit", "unlimit"][r.weighted(w)];
        let id = if few { r.range(0, 20) } else { r.range(0, 1000) };
        let inj = if name == "fill" || name == "limit" {
            r.range(0, 60)
        } else if faults && r.chance(1, 5) {
            r.range(1, 8)
        } else {
            0
        };
        kids.push(node(if name == "limit" && !faults { "fill" } else { name }, &[r.range(0, 3), id, inj]));
    }
    simkit::tree("case", &[r.range(0, 1), r.range(0, 1)], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 1_500_000,
        quick_secs: 120,
        thorough_secs: 600,
        hang_secs: 20,
        workers: 8,
        rule: "a case is a history of 2 to 120 operations on interners of eight element types over one or two shared arenas: interning texts, byte strings, keys, lists of keys, unit values, over-aligned values and lists of handles, other users of the arena, an arena that runs out of memory and gets more, and a panic at the n-th comparison or hash of a key",
        states: "(type, interner, distinct contents, handles) at the end of a case",
        real: &["common/interner.rs", "bumpalo"],
        stubs: &["none; the element types' hash and equality are the harness's, so that they can fail"],
        assumptions: &["a single thread (the types are neither Send nor Sync)"],
        expected_probes: &["known-content", "new-content", "empty", "same-address", "across-interners", "comparison-failed", "out-of-memory"],
        ..Check::new("C20", generate, run)
    });
}
