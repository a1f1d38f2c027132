// Included twice, once per vector layout: `vector`, `CXX` (is the other side a std::vector?) and
// `rep` (the three words as begin, length, capacity) come from the including module.
use super::*;

pub struct World<E> {
    pub v: Vec<vector<E>>,
}
type M = Vec<Vec<i64>>;

#[derive(PartialEq, Debug, Clone)]
pub enum Ret {
    Unit,
    Tags(Vec<i64>),
    Num(i64),
    Failed,
}
/// Takes the tags out before the elements are dropped: a destructor may panic.
fn one<E: El>(e: E) -> Ret {
    some(Some(e))
}
fn some<E: El>(es: impl IntoIterator<Item = E>) -> Ret {
    let es: Vec<E> = es.into_iter().collect();
    let t: Vec<i64> = es.iter().map(|e| e.tag()).collect();
    drop(es);
    Ret::Tags(t)
}

/// The operation on the real vector.
fn real<E: El + 'static>(w: &mut World<E>, op: &Node, k: usize, j: usize) -> Ret {
    let (x, y) = (op.a(2), op.a(3));
    let n = w.v[k].len();
    let xi = x as usize;
    match op.op.as_str() {
        "push" => w.v[k].push(E::make(x)),
        "insert" => w.v[k].insert(y as usize, E::make(x)),
        "remove" => return one(w.v[k].remove(xi)),
        "swap_remove" => return one(w.v[k].swap_remove(xi)),
        "pop" => return some(w.v[k].pop()),
        "clear" => w.v[k].clear(),
        "truncate" => w.v[k].truncate(xi),
        "reserve" => w.v[k].reserve(xi),
        "reserve_exact" => w.v[k].reserve_exact(xi),
        "try_reserve" | "try_reserve_exact" => {
            let a = if y == 1 { usize::MAX / 2 - n } else { xi };
            let r = if op.op == "try_reserve" { w.v[k].try_reserve(a) } else { w.v[k].try_reserve_exact(a) };
            return if r.is_ok() { Ret::Unit } else { Ret::Failed };
        }
        "shrink_to_fit" => w.v[k].shrink_to_fit(),
        "shrink_to" => w.v[k].shrink_to(xi),
        "append" => {
            if k != j {
                let (a, b) = two(&mut w.v, k, j);
                a.append(b);
            }
        }
        "split_off" => {
            let t = w.v[k].split_off(xi);
            if k != j {
                w.v[j] = t;
            } else {
                return some(t);
            }
        }
        "retain" => w.v[k].retain(|e| {
            user_call("predicate");
            keep(e.tag(), x)
        }),
        "retain_mut" => w.v[k].retain_mut(|e| {
            user_call("predicate");
            e.set(e.tag() + 1);
            keep(e.tag(), x)
        }),
        "dedup" => w.v[k].dedup(),
        "dedup_by" => w.v[k].dedup_by(|a, b| {
            user_call("predicate");
            a.tag() / 3 == b.tag() / 3
        }),
        "dedup_by_key" => w.v[k].dedup_by_key(|a| {
            user_call("key");
            a.tag() / 3
        }),
        "extend_from_slice" => {
            let s = makes::<E>(x, y);
            w.v[k].extend_from_slice(&s);
        }
        "extend_from_within" => w.v[k].extend_from_within(xi..y as usize),
        "resize" => w.v[k].resize(xi, E::make(y)),
        "resize_with" => {
            let mut c = y;
            w.v[k].resize_with(xi, || {
                user_call("generator");
                c += 1;
                E::make(c)
            })
        }
        "extend" => {
            let it = Src::<E>::new(x, y);
            w.v[k].extend(it)
        }
        "from_iter" => w.v[k] = Src::<E>::new(x, y).collect(),
        "from_slice" => {
            let mut s = makes::<E>(x, y);
            w.v[k] = match x % 3 {
                0 => vector::from(&s[..]),
                1 => vector::from(&mut s[..]),
                _ if s.len() == 2 => {
                    let b = s.pop().unwrap();
                    let a = s.pop().unwrap();
                    vector::from([a, b])
                }
                _ => vector::from(s),
            };
        }
        "with_capacity" => {
            w.v[k] = vector::with_capacity(xi);
            simkit::check!(w.v[k].capacity() >= xi, "capacity", "with_capacity({xi}) gave {}", w.v[k].capacity());
        }
        "clone" => {
            let c = w.v[j].clone();
            w.v[k] = c;
        }
        "to_vec" => {
            return some(w.v[k].to_vec());
        }
        "into_vec" => {
            let t: Vec<E> = if x == 0 { std::mem::take(&mut w.v[k]).into_vec() } else { std::mem::take(&mut w.v[k]).into() };
            if y == 1 {
                let tags = t.iter().map(|e| e.tag()).collect();
                w.v[k] = t.into();
                return Ret::Tags(tags);
            }
            return some(t);
        }
        "into_iter" => {
            let mut it = std::mem::take(&mut w.v[k]).into_iter();
            let mut tags = vec![];
            for i in 0..x {
                let e = if (y >> i) & 1 == 1 { it.next_back() } else { it.next() };
                if let Some(e) = e {
                    tags.push(e.tag());
                }
            }
            tags.push(it.len() as i64);
            for e in it.as_mut_slice() {
                e.set(e.tag() + 1);
            }
            tags.extend(it.as_slice().iter().map(|e| e.tag()));
            drop(it);
            return Ret::Tags(tags);
        }
        "set" => {
            if x < n as i64 {
                match y % 3 {
                    0 => w.v[k][xi] = E::make(y),
                    1 => w.v[k].as_mut_slice()[xi] = E::make(y),
                    _ => *w.v[k].iter_mut().nth(xi).unwrap() = E::make(y),
                }
            }
        }
        "swap" => w.v.swap(k, j),
        "drop" => w.v[k] = vector::new(),
        "write_tail" => {
            // Fill spare capacity in place, then publish it.
            let c = w.v[k].capacity();
            if n + xi <= c {
                let v = &mut w.v[k];
                v.prepare_to_write_into_tail();
                unsafe {
                    for i in 0..xi {
                        v.as_mut_ptr().add(n + i).write(E::make(y + i as i64));
                    }
                    v.set_len(n + xi);
                }
                return Ret::Num(1);
            }
            return Ret::Num(0);
        }
        "compare" => {
            use std::hash::{Hash, Hasher};
            let h = |v: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                v(&mut s);
                s.finish()
            };
            let (a, b) = (&w.v[k], &w.v[j]);
            let c = a.cmp(b) as i64;
            let pc = a.partial_cmp(b).map_or(9, |o| o as i64);
            let eq = eqs(a, b);
            let hh = (h(&|s| a.hash(s)) == h(&|s| a.as_slice().hash(s))) as i64;
            return Ret::Tags(vec![c, pc, eq, hh, a.first().map_or(-1, |e| e.tag()), a.is_empty() as i64]);
        }
        _ => return Ret::Num(-1),
    }
    Ret::Unit
}

/// The same operation on plain numbers.
fn model(m: &mut M, op: &Node, k: usize, j: usize, writable: bool) -> Ret {
    let (x, y) = (op.a(2), op.a(3));
    let xi = x as usize;
    match op.op.as_str() {
        "push" => m[k].push(x),
        "insert" => m[k].insert(y as usize, x),
        "remove" => return Ret::Tags(vec![m[k].remove(xi)]),
        "swap_remove" => return Ret::Tags(vec![m[k].swap_remove(xi)]),
        "pop" => return Ret::Tags(m[k].pop().into_iter().collect()),
        "clear" | "drop" => m[k].clear(),
        "truncate" => m[k].truncate(xi),
        "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => {}
        "with_capacity" => m[k].clear(),
        "try_reserve" | "try_reserve_exact" => return if y == 1 { Ret::Failed } else { Ret::Unit },
        "append" => {
            if k != j {
                let mut t = std::mem::take(&mut m[j]);
                m[k].append(&mut t);
            }
        }
        "split_off" => {
            let t = m[k].split_off(xi);
            if k == j {
                return Ret::Tags(t);
            }
            m[j] = t;
        }
        "retain" => m[k].retain(|e| keep(*e, x)),
        "retain_mut" => m[k].retain_mut(|e| {
            *e += 1;
            keep(*e, x)
        }),
        "dedup" => m[k].dedup(),
        "dedup_by" | "dedup_by_key" => m[k].dedup_by(|a, b| *a / 3 == *b / 3),
        "extend_from_slice" => m[k].extend((0..y).map(|i| x + i)),
        "extend_from_within" => m[k].extend_from_within(xi..y as usize),
        "resize" => m[k].resize(xi, y),
        "resize_with" => {
            let mut c = y;
            m[k].resize_with(xi, || {
                c += 1;
                c
            })
        }
        "extend" => m[k].extend((0..y).map(|i| x + i)),
        "from_iter" | "from_slice" => m[k] = (0..y).map(|i| x + i).collect(),
        "clone" => m[k] = m[j].clone(),
        "to_vec" => return Ret::Tags(m[k].clone()),
        "into_vec" => {
            let t = std::mem::take(&mut m[k]);
            if y == 1 {
                m[k] = t.clone();
            }
            return Ret::Tags(t);
        }
        "into_iter" => {
            let mut it = std::mem::take(&mut m[k]).into_iter();
            let mut tags = vec![];
            for i in 0..x {
                let e = if (y >> i) & 1 == 1 { it.next_back() } else { it.next() };
                tags.extend(e);
            }
            tags.push(it.len() as i64);
            tags.extend(it.map(|e| e + 1));
            return Ret::Tags(tags);
        }
        "set" => {
            if let Some(e) = m[k].get_mut(xi) {
                *e = y
            }
        }
        "swap" => m.swap(k, j),
        "write_tail" => {
            if writable {
                m[k].extend((0..x).map(|i| y + i));
            }
            return Ret::Num(writable as i64);
        }
        "compare" => {
            let c = m[k].cmp(&m[j]) as i64;
            return Ret::Tags(vec![c, c, (m[k] == m[j]) as i64, 1, m[k].first().copied().unwrap_or(-1), m[k].is_empty() as i64]);
        }
        _ => return Ret::Num(-1),
    }
    Ret::Unit
}

fn two<T>(v: &mut [T], a: usize, b: usize) -> (&mut T, &mut T) {
    assert!(a != b);
    if a < b {
        let (l, r) = v.split_at_mut(b);
        (&mut l[a], &mut r[0])
    } else {
        let (l, r) = v.split_at_mut(a);
        (&mut r[0], &mut l[b])
    }
}

/// The C++ side works on the same words; the model follows. Returns false if not applicable.
fn cxx<E: El>(w: &mut World<E>, m: &mut M, op: &Node, k: usize, j: usize) {
    if !CXX {
        return;
    }
    let what = op.a(2).rem_euclid(12);
    let n = m[k].len() as i64;
    let (mut x, mut y) = (op.a(3), op.a(4));
    let a = &mut w.v[k] as *mut vector<E> as *mut c_void;
    let b = &mut w.v[j] as *mut vector<E> as *mut c_void;
    match what {
        0 => m[k].push(x),
        1 if n > 0 => drop(m[k].pop()),
        2 => {
            y = y.rem_euclid(n + 1);
            m[k].insert(y as usize, x)
        }
        3 if n > 0 => {
            y = y.rem_euclid(n);
            m[k].remove(y as usize);
        }
        4 | 11 => m[k].clear(),
        5 => x = x.rem_euclid(20),
        6 => {}
        7 if k != j => m.swap(k, j),
        8 if k != j => m[k] = std::mem::take(&mut m[j]),
        9 => m[k] = m[j].clone(),
        10 => {
            x = x.rem_euclid(12);
            m[k].resize(x as usize, y)
        }
        _ => return,
    }
    simkit::probe("cxx-op");
    unsafe { cxx_vec(E::BIG as i32, what as i32, a, b, x, y) };
}

/// Representation, contents and liveness of every vector.
fn observe<E: El>(w: &World<E>, m: Option<&M>, op: &str) -> M {
    let mut all = vec![];
    let mut total = 0;
    let mut got: M = vec![];
    for (k, v) in w.v.iter().enumerate() {
        let (b, n, c) = rep(v);
        if b == 0 {
            simkit::check!(n == 0 && c == 0, "representation", "after {op}: null buffer with length {n}, capacity {c}");
        } else {
            let want = c * size_of::<E>();
            match block(b) {
                Some((size, al)) => {
                    simkit::check!(size == want && al == align_of::<E>().max(16).min(if align_of::<E>() > 16 { 64 } else { 16 }), "representation",
                        "after {op}: buffer block has {size} bytes align {al}, capacity {c} needs {want}");
                }
                None => simkit::check!(false, "dangling-buffer", "after {op}: vector {k} points to memory that is not a live C++ block"),
            }
        }
        simkit::check!(n <= c, "representation", "after {op}: length {n} exceeds capacity {c}");
        simkit::check!(v.len() == n && v.capacity() == c && v.is_empty() == (n == 0) && v.as_ptr() as usize == b, "representation", "after {op}: accessors disagree with the words");
        if simkit::failed() {
            return got;
        }
        let mut tags = vec![];
        for e in v.as_slice() {
            if !e.live() {
                simkit::check!(false, "dead-element", "after {op}: vector {k} holds a dead or torn element");
                return got;
            }
            all.push(e.id());
            tags.push(e.tag());
        }
        total += n;
        let (d, s): (Vec<i64>, Vec<i64>) = (v.iter().map(|e| e.tag()).collect(), v.as_slice().iter().map(|e| e.tag()).collect());
        simkit::check!(d == tags && s == tags, "representation", "after {op}: views disagree");
        if CXX {
            let p = v as *const vector<E> as *mut c_void;
            let n2 = unsafe { cxx_vec(E::BIG as i32, 12, p, p, 0, 0) };
            simkit::check!(n2 == n as i64, "other-side", "after {op}: C++ sees length {n2} instead of {n}");
            for (i, t) in tags.iter().enumerate() {
                let t2 = unsafe { cxx_vec(E::BIG as i32, 13, p, p, i as i64, 0) };
                simkit::check!(t2 == *t, "other-side", "after {op}: C++ sees another element {i}");
            }
        }
        if let Some(m) = m {
            simkit::check!(tags == m[k], "wrong-elements", "after {op}: vector {k} is {tags:?}, expected {:?}", m[k]);
        }
        got.push(tags);
    }
    all.sort();
    let before = all.len();
    all.dedup();
    simkit::check!(all.len() == before, "duplicated-element", "after {op}: the same element is stored twice");
    let live = obj_live();
    // rustc leaks a finished return value when the destructor of a local panics afterwards.
    if drop_panics() {
        EXTRA.with(|e| e.set(live.len().saturating_sub(total)));
    }
    let total = total + EXTRA.with(|e| e.get());
    simkit::check!(live.len() == total, "leaked-element", "after {op}: {} elements alive, {total} stored", live.len());
    got
}

pub fn go<E: El + 'static>(case: &Node) {
    let mut w = World::<E> { v: (0..NV).map(|_| vector::new()).collect() };
    let mut m: M = vec![vec![]; NV];
    EXTRA.with(|e| e.set(0));
    for op in &case.kids {
        simkit::step();
        new_op();
        let (k, j) = (op.ix(0, NV), op.ix(1, NV));
        let _p0 = simkit::pause();
        ev!("{} {:?}", op.op, op.args);
        drop(_p0);
        if op.op == "cxx" {
            cxx(&mut w, &mut m, op, k, j);
            observe(&w, Some(&m), "C++ access");
            if simkit::failed() {
                break;
            }
            continue;
        }
        let n = w.v[k].len();
        let cap0 = w.v[k].capacity();
        let writable = n + op.a(2).max(0) as usize <= cap0;
        fail_call(op.a(4).max(0) as u64);
        fail_alloc(op.a(5).max(0) as u64);
        let got = catch(|| real(&mut w, op, k, j));
        let (f, oom) = (fired(), failed_allocs());
        fail_call(0);
        fail_alloc(0);
        let try_op = op.op.starts_with("try_reserve");
        if f || (oom > 0 && !try_op) {
            // The failure reaches the caller and whatever is left is valid.
            let want = if f { PANIC } else { OOM };
            simkit::check!(got == Err(Caught::Injected(want)), "swallowed-failure", "{}: a failure in user code or allocation ended as {got:?}", op.op);
            simkit::probe(&format!("{}-{}", if f { "panic" } else { "oom" }, op.op));
            let _p = simkit::pause();
            m = observe(&w, None, &format!("failed {}", op.op));
        } else {
            let mut m2 = m.clone();
            let mut want = catch(|| model(&mut m2, op, k, j, writable));
            if try_op && oom > 0 {
                want = Ok(Ret::Failed);
                simkit::probe("try-reserve-failed");
            }
            let same = match (&got, &want) {
                (Ok(a), Ok(b)) => a == b,
                (Err(Caught::Other(_)), Err(Caught::Other(_))) => true,
                _ => false,
            };
            simkit::check!(same, "wrong-result", "{}: got {got:?}, expected {want:?}", op.op);
            if want.is_ok() {
                m = m2;
            }
            if got.is_ok() && (op.op.contains("reserve")) && got != Ok(Ret::Failed) {
                let (l, c) = (w.v[k].len(), w.v[k].capacity());
                simkit::check!(c >= l + op.a(2) as usize, "capacity", "{} by {} left capacity {c} for length {l}", op.op, op.a(2));
            }
            observe(&w, Some(&m), &op.op);
        }
        drop(got);
        simkit::reached(simkit::mix(n as u64 * 64 + cap0 as u64) ^ simkit::hash_bytes(f as u64 + 2 * oom.min(1), op.op.as_bytes()));
        if simkit::failed() {
            break;
        }
    }
    if simkit::failed() {
        std::mem::forget(w);
        return;
    }
    drop(w);
    let live = obj_live();
    simkit::check!(live.len() == EXTRA.with(|e| e.get()), "never-destroyed", "{} elements were never destroyed", live.len());
}
