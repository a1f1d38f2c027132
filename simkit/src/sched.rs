//! Cooperative scheduler: simulated threads run on OS threads, but exactly one at a time; at every
//! yield point the schedule of the case decides who goes on. Nothing else switches threads.

use crate::state::pause;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// Parked until `unpark`.
    Parked,
    Done,
}
struct Inner {
    cur: usize,
    st: Vec<St>,
    tokens: Vec<bool>,
    choices: Vec<i64>,
    pos: usize,
    switches: u64,
    trace: u64,
    stuck: bool,
}
struct Shared {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
    done: Condvar,
}
static CUR: Mutex<Option<Arc<Shared>>> = Mutex::new(None);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct Report {
    /// Context switches made.
    pub switches: u64,
    /// Fingerprint of the sequence of (yield point, thread) decisions.
    pub trace: u64,
    /// All unfinished threads were parked.
    pub stuck: bool,
    /// Panics that escaped a thread: (thread, what).
    pub panics: Vec<(usize, crate::Caught)>,
}

fn guard(s: &Shared) -> MutexGuard<'_, Inner> {
    s.m.lock().unwrap_or_else(|e| e.into_inner())
}
fn shared() -> Option<Arc<Shared>> {
    CUR.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Picks the thread to run next. The caller holds the lock and is about to wait or finish.
fn pick(i: &mut Inner, label: &str) {
    let ready: Vec<usize> = (0..i.st.len()).filter(|&k| i.st[k] == St::Ready).collect();
    if ready.is_empty() {
        if i.st.iter().any(|s| *s == St::Parked) {
            i.stuck = true;
        }
        i.cur = usize::MAX;
        return;
    }
    let c = i.choices.get(i.pos).copied().unwrap_or(0);
    i.pos += 1;
    let next = if ready.contains(&i.cur) {
        let at = ready.iter().position(|&k| k == i.cur).unwrap();
        ready[(at + c.rem_euclid(ready.len() as i64) as usize) % ready.len()]
    } else {
        ready[c.rem_euclid(ready.len() as i64) as usize]
    };
    if next != i.cur {
        i.switches += 1;
    }
    i.trace = crate::mix(i.trace ^ crate::hash_bytes(next as u64, label.as_bytes()));
    i.cur = next;
}

fn wait_turn(s: &Shared, mut g: MutexGuard<'_, Inner>, me: usize) {
    while g.cur != me {
        if g.stuck {
            // Deadlock: let every thread leave by unwinding.
            drop(g);
            std::panic::resume_unwind(Box::new("deadlock: all simulated threads are parked"));
        }
        g = s.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// A point where another simulated thread may run. Does nothing outside of `run`.
pub fn yield_point(label: &str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let _p = pause();
    let Some(s) = shared() else { return };
    let mut g = guard(&s);
    if g.stuck || g.cur != me {
        return;
    }
    pick(&mut g, label);
    if g.cur != me {
        s.cv[g.cur].notify_one();
        wait_turn(&s, g, me);
    }
}
/// The index of the simulated thread, if inside one.
pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    (m != usize::MAX).then_some(m)
}
/// Blocks until somebody unparks this thread (a token given earlier is consumed).
pub fn park(label: &str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let _p = pause();
    let Some(s) = shared() else { return };
    let mut g = guard(&s);
    if g.tokens[me] {
        g.tokens[me] = false;
        return;
    }
    g.st[me] = St::Parked;
    pick(&mut g, label);
    if g.cur == usize::MAX {
        for c in &s.cv {
            c.notify_all();
        }
    } else {
        s.cv[g.cur].notify_one();
    }
    wait_turn(&s, g, me);
    let mut g = guard(&s);
    g.tokens[me] = false;
}
pub fn unpark(who: usize) {
    let _p = pause();
    let Some(s) = shared() else { return };
    let mut g = guard(&s);
    if who >= g.st.len() {
        return;
    }
    if g.st[who] == St::Parked {
        g.st[who] = St::Ready;
    }
    g.tokens[who] = true;
}

/// Runs the tasks to completion under the schedule; `choices[i]` is the i-th decision (0: go on).
pub fn run(choices: &[i64], tasks: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let _p = pause();
    let n = tasks.len();
    let s = Arc::new(Shared {
        m: Mutex::new(Inner {
            cur: usize::MAX,
            st: vec![St::Ready; n],
            tokens: vec![false; n],
            choices: choices.to_vec(),
            pos: 0,
            switches: 0,
            trace: 0,
            stuck: false,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    *CUR.lock().unwrap() = Some(s.clone());
    let panics = Arc::new(Mutex::new(vec![]));
    let track = crate::track::tracking_now();
    let hs: Vec<_> = tasks
        .into_iter()
        .enumerate()
        .map(|(k, t)| {
            let (s, panics) = (s.clone(), panics.clone());
            std::thread::spawn(move || {
                let p = pause();
                ME.with(|m| m.set(k));
                if let Err(e) = crate::catch(|| wait_turn(&s, guard(&s), k)) {
                    let _ = e;
                }
                if track {
                    crate::track::alloc_begin();
                }
                drop(p);
                let r = crate::catch(t);
                let _p = pause();
                if track {
                    crate::track::alloc_thread_end();
                }
                if let Err(e) = r {
                    panics.lock().unwrap().push((k, e));
                }
                let mut g = guard(&s);
                g.st[k] = St::Done;
                if g.cur == k {
                    pick(&mut g, "exit");
                    if g.cur != usize::MAX {
                        s.cv[g.cur].notify_one();
                    } else {
                        for c in &s.cv {
                            c.notify_all();
                        }
                    }
                }
                ME.with(|m| m.set(usize::MAX));
                s.done.notify_all();
            })
        })
        .collect();
    {
        let mut g = guard(&s);
        if n > 0 {
            pick(&mut g, "start");
            s.cv[g.cur].notify_one();
        }
    }
    for h in hs {
        let _ = h.join();
    }
    *CUR.lock().unwrap() = None;
    let g = guard(&s);
    let mut ps = std::mem::take(&mut *panics.lock().unwrap());
    ps.sort_by_key(|p| p.0);
    Report { switches: g.switches, trace: g.trace, stuck: g.stuck, panics: ps }
}
