//! Forked runs for behaviours that legitimately end the process.

use std::io::Read;
use std::os::fd::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

/// What the forked child does to report: raw bytes written to the pipe.
pub struct Pipe(i32);
impl Pipe {
    pub fn say(&self, s: &str) {
        unsafe {
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = write(self.0, b.as_ptr().cast(), b.len());
                if n <= 0 {
                    return;
                }
                b = &b[n as usize..];
            }
        }
    }
    pub fn fd(&self) -> i32 {
        self.0
    }
}

/// Runs `f` in a forked child (stderr silenced) and returns how it ended and what it said.
/// The child has the log and violations of its own copy of the state; `f` must report through
/// the pipe. A violation recorded in the child is forwarded to the parent.
pub fn forked(f: impl FnOnce(&Pipe)) -> (Exit, String) {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("harness: pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            panic!("harness: fork failed");
        }
        if pid == 0 {
            close(fds[0]);
            let nul = open(b"/dev/null\0".as_ptr() as *const i8, 1);
            dup2(nul, 2);
            dup2(nul, 1);
            setrlimit(4, &[0, 0]); // RLIMIT_CORE
            let p = Pipe(fds[1]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&p)));
            let v = crate::with(|s| s.violation.clone());
            if let Some((c, d)) = v {
                p.say(&format!("\u{1}{c}\u{2}{d}\u{3}"));
            }
            _exit(if r.is_ok() { 0 } else { 77 });
        }
        close(fds[1]);
        let mut out = Vec::new();
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let _ = file.read_to_end(&mut out);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let mut text = String::from_utf8_lossy(&out).into_owned();
        if let (Some(a), Some(b), Some(c)) = (text.find('\u{1}'), text.find('\u{2}'), text.find('\u{3}')) {
            let (class, detail) = (text[a + 1..b].to_string(), text[b + 1..c].to_string());
            crate::fail(&class, &detail);
            text.replace_range(a..=c, "");
        }
        let e = if st & 0x7f != 0 { Exit::Signal(st & 0x7f) } else { Exit::Code((st >> 8) & 0xff) };
        (e, text)
    }
}

pub const SIGABRT: i32 = 6;
