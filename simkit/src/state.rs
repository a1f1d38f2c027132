//! Per-case recording: event log, violations, fault and probe counters, distinct states.
//! One process runs one case at a time; the state is global so that C++ code, callbacks and
//! simulated threads can all report into it.

use crate::rng::{hash_bytes, mix};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Mutex, MutexGuard};

#[derive(Default)]
pub struct State {
    pub hash: u64,
    pub events: u64,
    pub steps: u64,
    pub verbose: Option<Vec<String>>,
    pub violation: Option<(String, String)>,
    pub nontrivial: bool,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub last_panic: String,
    pub total_steps: u64,
    pub total_events: u64,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

thread_local! {
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}

/// While a guard lives, the tracking allocator ignores this thread.
pub struct Pause(());
pub fn pause() -> Pause {
    let _ = PAUSE.try_with(|p| p.set(p.get() + 1));
    Pause(())
}
impl Drop for Pause {
    fn drop(&mut self) {
        let _ = PAUSE.try_with(|p| p.set(p.get() - 1));
    }
}
/// While a guard lives, this thread is tracked, even inside `pause`.
pub struct Resume(u32);
pub fn resume() -> Resume {
    Resume(PAUSE.try_with(|p| p.replace(0)).unwrap_or(0))
}
impl Drop for Resume {
    fn drop(&mut self) {
        let _ = PAUSE.try_with(|p| p.set(self.0));
    }
}
pub fn paused() -> bool {
    PAUSE.try_with(|p| p.get() > 0).unwrap_or(true)
}

fn lock() -> (Pause, MutexGuard<'static, Option<State>>) {
    let p = pause();
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(State::default());
    }
    (p, g)
}

pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let (_p, mut g) = lock();
    f(g.as_mut().unwrap())
}

pub fn reset_case(verbose: bool) {
    with(|s| {
        s.hash = 0;
        s.events = 0;
        s.steps = 0;
        s.violation = None;
        s.nontrivial = false;
        s.verbose = if verbose { Some(vec![]) } else { None };
        s.last_panic.clear();
    })
}

/// Adds one line to the event log. Never draws randomness and never reads a clock.
pub fn ev(text: &str) {
    with(|s| {
        s.hash = mix(s.hash ^ hash_bytes(s.events, text.as_bytes()));
        s.events += 1;
        s.total_events += 1;
        if let Some(v) = s.verbose.as_mut() {
            v.push(text.to_string());
        }
    })
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => {{
        let _p = $crate::pause();
        $crate::ev(&format!($($t)*))
    }};
}

/// Reports a violation; the first one of a case counts.
pub fn fail(class: &str, detail: &str) {
    with(|s| {
        if let Some(v) = s.verbose.as_mut() {
            v.push(format!("VIOLATED {class}: {detail}"));
        }
        if s.violation.is_none() {
            s.violation = Some((class.to_string(), detail.to_string()));
        }
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            let _p = $crate::pause();
            $crate::fail($class, &format!($($t)*));
        }
    };
}

pub fn failed() -> bool {
    with(|s| s.violation.is_some())
}
pub fn fault(kind: &str) {
    with(|s| {
        s.nontrivial = true;
        *s.faults.entry(kind.to_string()).or_insert(0) += 1
    })
}
pub fn probe(name: &str) {
    with(|s| *s.probes.entry(name.to_string()).or_insert(0) += 1)
}
pub fn nontrivial() {
    with(|s| s.nontrivial = true)
}
pub fn step() {
    with(|s| {
        s.steps += 1;
        s.total_steps += 1
    })
}
/// Records an abstract state reached (the coverage measure of the check).
pub fn reached(h: u64) {
    with(|s| {
        if s.states.len() < 2_000_000 {
            s.states.insert(h);
        }
    })
}
pub fn set_last_panic(m: String) {
    with(|s| s.last_panic = m)
}
pub fn last_panic() -> String {
    with(|s| s.last_panic.clone())
}
