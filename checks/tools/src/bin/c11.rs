//! C11: formatting through an external tool. Pipes, the tool's process, the threads and every system
//! call between them are simulated: a seeded scheduler decides who runs next.
use proc_macro2::{Group, Ident, Literal, Span, TokenStream, TokenTree};
use simkit::{check, ev, node, tree, Caught, Check, Node, Rng};
use std::cell::Cell;
use std::collections::VecDeque;
use std::path::Path;
use std::sync::{Condvar, Mutex, MutexGuard};
use token_stream_printer::*;

unsafe extern "C" {
    fn set_sim_on(v: i32);
    fn set_sim_fd(fd: i32, v: i32);
    fn swap_in_hook(v: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
}
#[link(name = "c")]
unsafe extern "C" {
    fn close(fd: i32) -> i32;
}

const EINTR: i64 = -4;
const ECHILD: i64 = -10;
const EAGAIN: i64 = -11;
const EMFILE: i64 = -24;
const EPIPE: i64 = -32;
const ENOENT: i64 = -2;

#[derive(Clone, Debug, PartialEq)]
enum Block {
    Ready,
    /// Until the pipe takes or gives something.
    Write(usize),
    Read(usize),
    Any(Vec<(usize, bool)>),
    Child,
    Join(usize),
    Futex(usize, i32),
    Done,
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    readers: u32,
    writers: u32,
}

struct Child {
    started: bool,
    /// None while alive: the wait status.
    status: Option<i32>,
    reaped: bool,
    script: VecDeque<Node>,
    /// What is left of the current write, and where it goes.
    pending: VecDeque<u8>,
    pending_to: usize,
    open: [bool; 3],
    eof: bool,
    consumed: Vec<u8>,
    produced: Vec<u8>,
    errors: Vec<u8>,
    chunk: usize,
}

struct Actor {
    block: Block,
    tid: u64,
}

struct Sim {
    rng: Rng,
    bias: [u64; 3],
    turn: usize,
    actors: Vec<Actor>,
    pipes: Vec<Pipe>,
    /// Per file descriptor: pipe, whether it is the writing end, nonblocking.
    fds: Vec<Option<(usize, bool, bool)>>,
    child: Child,
    cap: usize,
    calls: u64,
    faults: Vec<(u64, usize)>,
    /// A fault that a caller may fail for was injected.
    hard: bool,
    fed: Vec<u8>,
    steps: u64,
    broken: bool,
}

static SIM: Mutex<Option<Sim>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

const FAULTS: [&str; 4] = ["short", "eintr", "refused", "limit"];
// Pipes fail neither reads nor writes for other reasons than the above.

struct Hook(i32);
fn hook() -> Hook {
    Hook(unsafe { swap_in_hook(1) })
}
impl Drop for Hook {
    fn drop(&mut self) {
        unsafe {
            swap_in_hook(self.0);
        }
    }
}
fn lock() -> MutexGuard<'static, Option<Sim>> {
    SIM.lock().unwrap_or_else(|e| e.into_inner())
}

impl Sim {
    fn met(&self, b: &Block) -> bool {
        if self.broken && !matches!(b, Block::Done | Block::Join(_)) {
            return true;
        }
        match b {
            Block::Ready => true,
            Block::Write(p) => self.pipes[*p].buf.len() < self.cap || self.pipes[*p].readers == 0,
            Block::Read(p) => !self.pipes[*p].buf.is_empty() || self.pipes[*p].writers == 0,
            Block::Any(v) => v.iter().any(|&(p, w)| self.met(&if w { Block::Write(p) } else { Block::Read(p) })),
            Block::Child => self.child.status.is_some(),
            Block::Join(i) => self.actors[*i].block == Block::Done,
            Block::Futex(a, v) => unsafe { std::ptr::read_volatile(*a as *const i32) != *v },
            Block::Done => false,
        }
    }
    fn fault(&mut self) -> &'static str {
        self.calls += 1;
        match self.faults.iter().find(|f| f.0 == self.calls) {
            Some(f) => FAULTS[f.1 % FAULTS.len()],
            None => "",
        }
    }
    /// What the simulated tool may do now.
    fn child_ready(&self) -> bool {
        let c = &self.child;
        if !c.started || c.status.is_some() {
            return false;
        }
        if !c.pending.is_empty() {
            return self.met(&Block::Write(c.pending_to));
        }
        match c.script.front().map(|n| n.op.as_str()) {
            Some("read") | Some("readall") if c.open[0] && !c.eof => self.met(&Block::Read(0)),
            _ => true,
        }
    }
    fn child_close(&mut self, i: usize) {
        if std::mem::replace(&mut self.child.open[i], false) {
            if i == 0 {
                self.pipes[0].readers -= 1;
            } else {
                self.pipes[i].writers -= 1;
            }
        }
    }
    fn child_end(&mut self, status: i32) {
        ev!("tool ends {status}");
        self.child.status = Some(status);
        for i in 0..3 {
            self.child_close(i);
        }
    }
    fn child_step(&mut self) {
        if !self.child.pending.is_empty() {
            let to = self.child.pending_to;
            if !self.child.open[to] {
                self.child.pending.clear();
                return;
            }
            if self.pipes[to].readers == 0 {
                simkit::probe("tool-sigpipe");
                return self.child_end(13);
            }
            let room = self.cap - self.pipes[to].buf.len();
            let k = room.min(self.child.pending.len()).min(1 + self.rng.usize(self.child.chunk));
            for _ in 0..k {
                let b = self.child.pending.pop_front().unwrap();
                self.pipes[to].buf.push_back(b);
            }
            return;
        }
        let Some(op) = self.child.script.front().cloned() else {
            return self.child_end(0);
        };
        let say = |s: &mut Sim, to: usize, b: Vec<u8>| {
            s.child.pending = b.clone().into();
            s.child.pending_to = to;
            if s.child.open[to] {
                if to == 1 {
                    s.child.produced.extend(b);
                } else {
                    s.child.errors.extend(b);
                }
            }
        };
        match op.op.as_str() {
            "read" | "readall" => {
                if self.child.open[0] && !self.child.eof {
                    let k = self.pipes[0].buf.len().min(1 + self.rng.usize(self.child.chunk * 2));
                    if k == 0 {
                        self.child.eof = true;
                    }
                    let d: Vec<u8> = self.pipes[0].buf.drain(..k).collect();
                    self.child.consumed.extend(d);
                    if op.op == "readall" {
                        return;
                    }
                }
                self.child.script.pop_front();
            }
            o => {
                self.child.script.pop_front();
                match o {
                    "out" => say(self, 1, text(op.a(0), op.ix(1, 6000))),
                    "err" => say(self, 2, text(op.a(0), op.ix(1, 6000))),
                    "raw" => say(self, 1, vec![b'x', 0xff, 0xe4, b'y']),
                    "echo" => {
                        let t = self.child.consumed.clone();
                        say(self, 1, t);
                    }
                    "close" => self.child_close(op.ix(0, 3)),
                    "exit" => self.child_end(((op.a(0) & 255) << 8) as i32),
                    "die" => self.child_end([9, 11, 6, 15][op.ix(0, 4)]),
                    _ => {}
                }
            }
        }
    }
}

fn text(seed: i64, n: usize) -> Vec<u8> {
    let mut s = String::new();
    let mut i = seed as u64;
    while s.len() < n {
        i = simkit::mix(i);
        s.push(['a', '{', '\n', ' ', 'é', '漢', '𝒳', ';'][(i % 8) as usize]);
    }
    s.into_bytes()
}

/// Gives up the processor until `block` is met and the scheduler comes back to this actor.
fn pass(mut g: MutexGuard<'static, Option<Sim>>, block: Block) -> MutexGuard<'static, Option<Sim>> {
    let me = ME.get();
    g.as_mut().unwrap().actors[me].block = block;
    loop {
        let s = g.as_mut().unwrap();
        s.steps += 1;
        let mut ready: Vec<usize> = (0..s.actors.len()).filter(|&i| s.met(&s.actors[i].block)).collect();
        if s.child_ready() {
            ready.push(usize::MAX);
        }
        if ready.is_empty() || s.steps > 4_000_000 {
            if !s.broken {
                simkit::fail("hang", &format!("nobody can go on: {:?}, tool {:?}", s.actors.iter().map(|a| &a.block).collect::<Vec<_>>(), s.child.script.front()));
                s.broken = true;
                s.steps = 0;
                s.child.script.clear();
                s.child.pending.clear();
                continue;
            }
            // Nothing helps.
            std::process::abort();
        }
        let w: Vec<u64> = ready.iter().map(|&i| if i == usize::MAX { s.bias[2] } else { s.bias[i.min(1)] }).collect();
        let pick = ready[s.rng.weighted(&w)];
        if pick == usize::MAX {
            s.child_step();
            continue;
        }
        s.turn = pick;
        if pick != me {
            CV.notify_all();
            if s.actors[me].block == Block::Done {
                return g;
            }
            while g.as_ref().unwrap().turn != me {
                g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        let s = g.as_mut().unwrap();
        s.actors[me].block = Block::Ready;
        return g;
    }
}
fn enter(block: Block) -> MutexGuard<'static, Option<Sim>> {
    pass(lock(), block)
}
fn acting() -> bool {
    ME.get() != usize::MAX
}

#[unsafe(no_mangle)]
extern "C" fn hook_write(fd: i32, b: *const u8, n: usize) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let (p, w, _) = g.as_ref().unwrap().fds[fd as usize].unwrap();
    if !w {
        return -9;
    }
    loop {
        let s = g.as_mut().unwrap();
        let f = s.fault();
        if f == "eintr" {
            simkit::fault("write-eintr");
            return EINTR;
        }
        if s.pipes[p].readers == 0 || s.broken {
            simkit::probe("write-epipe");
            return EPIPE;
        }
        let room = s.cap.saturating_sub(s.pipes[p].buf.len());
        if room == 0 {
            simkit::probe("pipe-full");
            g = pass(g, Block::Write(p));
            continue;
        }
        let mut k = room.min(n);
        if f == "short" && k > 1 {
            simkit::fault("write-short");
            k = 1 + s.rng.usize(k);
        }
        let d = unsafe { std::slice::from_raw_parts(b, k) };
        s.pipes[p].buf.extend(d);
        if p == 0 {
            s.fed.extend(d);
        }
        return k as i64;
    }
}
#[unsafe(no_mangle)]
extern "C" fn hook_read(fd: i32, b: *mut u8, n: usize) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let (p, w, nonblock) = g.as_ref().unwrap().fds[fd as usize].unwrap();
    if w {
        return -9;
    }
    loop {
        let s = g.as_mut().unwrap();
        let f = s.fault();
        if f == "eintr" {
            simkit::fault("read-eintr");
            return EINTR;
        }
        if s.pipes[p].buf.is_empty() {
            if s.pipes[p].writers == 0 || s.broken {
                return 0;
            }
            if nonblock {
                return EAGAIN;
            }
            g = pass(g, Block::Read(p));
            continue;
        }
        let mut k = s.pipes[p].buf.len().min(n);
        if f == "short" && k > 1 {
            simkit::fault("read-short");
            k = 1 + s.rng.usize(k);
        }
        for i in 0..k {
            unsafe { *b.add(i) = s.pipes[p].buf.pop_front().unwrap() };
        }
        return k as i64;
    }
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
#[unsafe(no_mangle)]
extern "C" fn hook_poll(f: *mut PollFd, n: i64, timeout: i32) -> i64 {
    let _h = hook();
    let fs = unsafe { std::slice::from_raw_parts_mut(f, n as usize) };
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    if s.fault() == "eintr" {
        simkit::fault("poll-eintr");
        return EINTR;
    }
    let mut wait = vec![];
    for x in fs.iter() {
        if x.fd >= 0 {
            if let Some((p, w, _)) = s.fds[x.fd as usize] {
                wait.push((p, w));
            }
        }
    }
    if timeout < 0 {
        g = pass(g, Block::Any(wait));
    }
    let s = g.as_mut().unwrap();
    let mut r = 0;
    for x in fs.iter_mut() {
        x.revents = 0;
        if x.fd < 0 {
            continue;
        }
        let Some((p, w, _)) = s.fds[x.fd as usize] else { continue };
        let pipe = &s.pipes[p];
        if !w && !pipe.buf.is_empty() {
            x.revents |= 1;
        }
        if !w && pipe.writers == 0 {
            x.revents |= 0x10;
        }
        if w && pipe.buf.len() < s.cap {
            x.revents |= 4;
        }
        if w && pipe.readers == 0 {
            x.revents |= 8;
        }
        r += (x.revents != 0) as i64;
    }
    r
}
#[unsafe(no_mangle)]
extern "C" fn hook_close(fd: i32) -> i64 {
    let _h = hook();
    let mut g = if acting() { enter(Block::Ready) } else { lock() };
    let s = g.as_mut().unwrap();
    if let Some((p, w, _)) = s.fds[fd as usize].take() {
        if w {
            s.pipes[p].writers -= 1;
        } else {
            s.pipes[p].readers -= 1;
        }
    }
    unsafe {
        set_sim_fd(fd, 0);
        close(fd);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn hook_pipe(out: *mut i32) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    if s.fault() == "limit" {
        simkit::fault("pipe-emfile");
        s.hard = true;
        return EMFILE;
    }
    let p = s.pipes.len();
    s.pipes.push(Pipe { readers: 1, writers: 1, ..Pipe::default() });
    for w in 0..2 {
        let fd = unsafe { open(c"/dev/null".as_ptr(), 0o2000002) };
        assert!(fd >= 0 && fd < 1024);
        s.fds[fd as usize] = Some((p, w == 1, false));
        unsafe {
            set_sim_fd(fd, 1);
            *out.add(w) = fd;
        }
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn hook_spawn(pid: *mut i32) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    match s.fault() {
        "limit" => {
            simkit::fault("spawn-eagain");
            s.hard = true;
            return EAGAIN;
        }
        "refused" => {
            simkit::fault("spawn-enoent");
            s.hard = true;
            return ENOENT;
        }
        _ => {}
    }
    assert!(!s.child.started && s.pipes.len() == 3, "harness: one tool with three pipes");
    s.child.started = true;
    s.child.open = [true; 3];
    s.pipes[0].readers += 1;
    s.pipes[1].writers += 1;
    s.pipes[2].writers += 1;
    unsafe { *pid = 4242 };
    0
}
#[unsafe(no_mangle)]
extern "C" fn hook_wait(_pid: i32, status: *mut i32, options: i32) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    match s.fault() {
        "eintr" => {
            simkit::fault("wait-eintr");
            return EINTR;
        }
        "refused" => {
            simkit::fault("wait-echild");
            s.hard = true;
            return ECHILD;
        }
        _ => {}
    }
    if options & 1 == 0 {
        g = pass(g, Block::Child);
    }
    let s = g.as_mut().unwrap();
    if s.child.reaped {
        return ECHILD;
    }
    match s.child.status {
        Some(st) => {
            s.child.reaped = true;
            unsafe { *status = st };
            4242
        }
        None => 0,
    }
}
#[unsafe(no_mangle)]
extern "C" fn hook_kill(_pid: i32, sig: i32) -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    if s.child.started && s.child.status.is_none() && sig != 0 {
        s.child_end(sig);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn hook_nonblock(fd: i32, on: i32) {
    let _h = hook();
    let mut g = enter(Block::Ready);
    if let Some(x) = &mut g.as_mut().unwrap().fds[fd as usize] {
        x.2 = on != 0;
    }
}
#[unsafe(no_mangle)]
extern "C" fn hook_futex(a: *const i32, v: i32, timed: i32) -> i64 {
    if !acting() {
        return 1;
    }
    let _h = hook();
    drop(enter(if timed != 0 { Block::Ready } else { Block::Futex(a as usize, v) }));
    EAGAIN
}
#[unsafe(no_mangle)]
extern "C" fn hook_sleep() {
    if acting() {
        let _h = hook();
        drop(enter(Block::Ready));
    }
}
#[unsafe(no_mangle)]
extern "C" fn hook_thread_new() -> i64 {
    let _h = hook();
    let mut g = enter(Block::Ready);
    let s = g.as_mut().unwrap();
    if s.fault() == "limit" {
        simkit::fault("thread-eagain");
        s.hard = true;
        return EAGAIN;
    }
    s.actors.push(Actor { block: Block::Ready, tid: 0 });
    s.actors.len() as i64 - 1
}
#[unsafe(no_mangle)]
extern "C" fn hook_thread_is(id: i64, tid: u64) {
    let _h = hook();
    lock().as_mut().unwrap().actors[id as usize].tid = tid;
}
#[unsafe(no_mangle)]
extern "C" fn hook_thread_start(id: i64) {
    let _h = hook();
    ME.set(id as usize);
    let mut g = lock();
    while g.as_ref().unwrap().turn != id as usize {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
#[unsafe(no_mangle)]
extern "C" fn hook_thread_end(_id: i64) {
    let _h = hook();
    drop(pass(lock(), Block::Done));
    ME.set(usize::MAX);
}
#[unsafe(no_mangle)]
extern "C" fn hook_join(tid: u64) {
    if !acting() {
        return;
    }
    let _h = hook();
    let g = lock();
    if let Some(i) = g.as_ref().unwrap().actors.iter().position(|a| a.tid == tid) {
        drop(pass(g, Block::Join(i)));
    }
}

fn tokens(seed: i64, n: usize) -> TokenStream {
    let mut v: Vec<TokenTree> = vec![];
    let mut i = seed as u64;
    let mut size = 0;
    while size < n {
        i = simkit::mix(i);
        let l = 1 + (i >> 8) as usize % 40;
        size += l;
        v.push(match i % 6 {
            0 => Ident::new("__NEWLINE__", Span::call_site()).into(),
            1 => Literal::string(&"lité".repeat(l / 5 + 1)).into(),
            2 => Group::new(proc_macro2::Delimiter::Brace, TokenStream::new()).into(),
            _ => Ident::new(&format!("x{}", "y".repeat(l)), Span::call_site()).into(),
        });
    }
    v.into_iter().collect()
}

fn run(case: &Node) {
    let script: VecDeque<Node> = case.kids.iter().filter(|k| !matches!(k.op.as_str(), "fault")).cloned().collect();
    let faults: Vec<(u64, usize)> = case.kids.iter().filter(|k| k.op == "fault").map(|k| (1 + k.ix(0, 4000) as u64, k.ix(1, 4))).collect();
    let api = case.ix(0, 5);
    let ts = tokens(case.a(1), case.ix(2, 30_000));
    let cc = api == 0 || api == 1;
    let mut input = tokens_to_string(ts.clone()).unwrap();
    if !cc {
        input = input.replace("...", "/*...*/");
    }
    let bias = [[3, 3, 3], [6, 1, 1], [1, 6, 1], [1, 1, 6], [1, 4, 4], [4, 1, 4], [4, 4, 1]][case.ix(5, 7)];
    *lock() = Some(Sim {
        rng: Rng::new(case.a(3) as u64),
        bias,
        turn: 0,
        actors: vec![Actor { block: Block::Ready, tid: 0 }],
        pipes: vec![],
        fds: vec![None; 1024],
        child: Child {
            started: false,
            status: None,
            reaped: false,
            script,
            pending: VecDeque::new(),
            pending_to: 1,
            open: [false; 3],
            eof: false,
            consumed: vec![],
            produced: vec![],
            errors: vec![],
            chunk: [1 + case.ix(4, 4096), 4096][case.ix(4, 2)],
        },
        cap: 1 + case.ix(4, 5000),
        calls: 0,
        faults,
        hard: false,
        fed: vec![],
        steps: 0,
        broken: false,
    });
    ME.set(0);
    unsafe { set_sim_on(1) };
    let r = simkit::catch(|| {
        let exe = Path::new("/nonexistent/formatter");
        let cfg = RustfmtConfig::new(exe, (case.a(1) % 2 == 0).then_some(Path::new("/nonexistent/cfg.toml")));
        match api {
            0 => cc_tokens_to_formatted_string(ts, Some(exe)),
            1 => cc_tokens_to_formatted_string_with_provenance(ts, Some(exe)).map(|r| r.0),
            2 => rs_tokens_to_formatted_string_with_provenance(ts, Some(&cfg)).map(|r| r.0),
            _ => rs_tokens_to_formatted_string(ts, Some(&cfg)),
        }
    });
    let status_at_return = lock().as_ref().unwrap().child.status;
    // Threads and tool that were left behind run to their end.
    {
        let _h = hook();
        for i in 1.. {
            let g = lock();
            if i >= g.as_ref().unwrap().actors.len() {
                break;
            }
            if g.as_ref().unwrap().actors[i].block != Block::Done {
                simkit::probe("thread-left-behind");
            }
            drop(pass(g, Block::Join(i)));
        }
    }
    ME.set(usize::MAX);
    unsafe { set_sim_on(0) };
    let s = lock().take().unwrap();
    for (fd, f) in s.fds.iter().enumerate() {
        if f.is_some() {
            simkit::probe("descriptor-left-open");
            unsafe {
                set_sim_fd(fd as i32, 0);
                close(fd as i32);
            }
        }
    }
    for _ in 0..s.steps.min(1000) {
        simkit::step();
    }
    let c = &s.child;
    let input = input.into_bytes();
    ev!("{} calls, {} steps, fed {}, consumed {}, produced {}, status {:?}, at return {:?}", s.calls, s.steps, s.fed.len(), c.consumed.len(), c.produced.len(), c.status, status_at_return);
    if simkit::failed() {
        return;
    }
    check!(input.starts_with(&s.fed) && input.starts_with(&c.consumed), "fed-wrong", "the tool was not given the text");
    let valid = std::str::from_utf8(&c.produced).is_ok();
    match r {
        Ok(Ok(text)) => {
            ev!("ok {}", text.len());
            check!(c.started && status_at_return == Some(0), "success-of-failed-tool", "success, but the tool's status is {:?}", status_at_return);
            check!(s.fed == input, "success-not-fed", "success, but the tool was given {} of {} bytes", s.fed.len(), input.len());
            check!(text.as_bytes() == c.produced, "output-differs", "success with {} bytes of the tool's {} (valid {valid})", text.len(), c.produced.len());
            if !c.eof {
                simkit::probe("success-without-reading-all");
            }
            if c.produced.len() > s.cap && !c.errors.is_empty() {
                simkit::probe("both-outputs");
            }
        }
        other => {
            let why = match &other {
                Ok(Err(e)) => format!("error {}", e.root_cause().to_string().lines().next().unwrap_or("").len().min(20)),
                Err(Caught::Other(_)) => "panic".to_string(),
                _ => "?".into(),
            };
            ev!("failed: {why}");
            if !s.hard && valid && s.fed == input && c.status == Some(0) {
                simkit::fail("fails-without-reason", "failure although the tool was fed completely and succeeded");
            }
            simkit::probe(match (s.hard, c.status) {
                (true, _) => "failed-by-fault",
                (_, Some(x)) if x & 127 != 0 => "failed-by-signal",
                (_, Some(0)) => "failed-not-fed",
                _ => "failed-by-status",
            });
        }
    }
    if s.calls > 8 {
        simkit::nontrivial();
    }
    simkit::reached(simkit::mix(c.produced.len() as u64 ^ simkit::mix(s.fed.len() as u64 ^ simkit::mix(s.calls))));
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut k = vec![];
    let good = r.chance(1, 3);
    let cap = if r.chance(1, 2) { r.range(0, 200) } else { r.range(0, 4999) };
    // How large in relation to a pipe.
    let size = |r: &mut Rng| match r.weighted(&[1, 3, 3, 2]) {
        0 => 0,
        1 => r.range(1, 60),
        2 => r.range(0, 3 * cap + 10).min(5999),
        _ => r.range(0, 5999),
    };
    let n = size(r) * if r.chance(1, 6) { 4 } else { 1 };
    if good {
        for _ in 0..r.range(0, 2) {
            k.push(node("err", &[r.range(0, 9), size(r)]));
        }
        if r.chance(1, 4) {
            k.push(node("out", &[r.range(0, 9), size(r)]));
        }
        k.push(node("readall", &[]));
        if r.chance(1, 3) {
            k.push(node("err", &[r.range(0, 9), size(r)]));
        }
        if r.chance(1, 3) {
            k.push(node("close", &[0]));
        }
        k.push(if r.chance(1, 2) { node("echo", &[]) } else { node("out", &[r.range(0, 9), size(r)]) });
        if r.chance(1, 4) {
            k.push(node("close", &[r.range(1, 2)]));
        }
        if r.chance(1, 4) {
            k.push(node("err", &[r.range(0, 9), size(r)]));
        }
        if r.chance(1, 6) {
            k.push(node("exit", &[r.range(1, 3)]));
        }
    } else {
        for _ in 0..r.range(0, 8) {
            k.push(match r.weighted(&[5, 2, 4, 3, 1, 2, 3, 1, 1]) {
                0 => node("read", &[]),
                1 => node("readall", &[]),
                2 => node("out", &[r.range(0, 9), size(r)]),
                3 => node("err", &[r.range(0, 9), size(r)]),
                4 => node("raw", &[]),
                5 => node("echo", &[]),
                6 => node("close", &[r.range(0, 2)]),
                7 => node("exit", &[r.range(0, 2)]),
                _ => node("die", &[r.range(0, 3)]),
            });
        }
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 4) {
            let hi = *r.pick(&[12, 40, 200]);
            k.push(node("fault", &[r.range(0, hi), r.weighted(&[4, 4, 1, 1]) as i64]));
        }
    }
    tree("format", &[r.range(0, 4), r.range(0, 99), n, r.range(0, 1 << 40), cap, r.range(0, 6)], k)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 300_000,
        rule: "a case is a text, a tool's behaviour as a sequence of reads, writes, closes and an end, pipe capacities, a schedule and failing or partial system calls; non-trivial: more than 8 system calls; distinct by the whole case",
        states: "distinct (bytes produced, bytes fed, system calls) reached",
        real: &["common/token_stream_printer.rs", "the Rust standard library's process, thread and pipe code down to the system calls"],
        stubs: &["pipes, the tool's process, spawning and waiting: simulated below the system call interface; threads are real but run one at a time as the simulator decides"],
        assumptions: &["a tool that ends closes its pipes (no grandchildren keep them open)"],
        expected_probes: &[
            "tool-sigpipe", "write-epipe", "pipe-full", "thread-left-behind", "success-without-reading-all", "both-outputs", "failed-by-fault", "failed-by-signal", "failed-not-fed", "failed-by-status",
        ],
        ..Check::new("C11", generate, run)
    })
}
