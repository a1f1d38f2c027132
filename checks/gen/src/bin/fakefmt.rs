//! A formatter that does what `<its own path>.cfg` says: how much it reads, how much it writes, what it
//! writes to the error stream and how it ends. What it was given and what it wrote goes to
//! `<its own path>.in` and `.out`.
use std::io::{Read, Write};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn close(fd: i32) -> i32;
    fn poll(p: *mut [u16; 4], n: u64, ms: i32) -> i32;
    fn ioctl(fd: i32, what: u64, ...) -> i32;
}
const FIONREAD: u64 = 0x541b;

/// Until the other side is done writing, or can write no more.
fn settle() {
    let (mut last, mut same) = (0, 0);
    loop {
        let mut p = [0u16; 4];
        if unsafe { poll(&mut p, 1, 2) } > 0 && p[3] & 0x10 != 0 {
            return;
        }
        let mut n = 0i32;
        unsafe { ioctl(0, FIONREAD, &mut n) };
        same = if n == last && n > 40_000 { same + 1 } else { 0 };
        last = n;
        if same > 20 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

fn main() {
    let me = std::env::args().next().unwrap();
    let cfg = std::fs::read_to_string(format!("{me}.cfg")).unwrap_or_default();
    let get = |k: &str, d: i64| cfg.split_whitespace().find_map(|w| w.strip_prefix(k)?.strip_prefix('=')?.parse::<i64>().ok()).unwrap_or(d);
    let (limit_in, limit_out, chunk) = (get("in", i64::MAX), get("out", i64::MAX), get("chunk", 1 << 16).max(1));
    let mut input = vec![];
    let mut sent: Vec<u8> = vec![];
    let mut buf = vec![0; chunk as usize];
    let (mut stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut open = true;
    let mut eof = false;
    if get("early", 0) == 1 {
        unsafe { close(1) };
        open = false;
    }
    let mut send = |b: &[u8], sent: &mut Vec<u8>, open: &mut bool| {
        if !*open {
            return;
        }
        let b = &b[..b.len().min((limit_out - sent.len() as i64).max(0) as usize)];
        if stdout.write_all(b).and_then(|_| stdout.flush()).is_err() {
            *open = false;
        }
        sent.extend_from_slice(b);
    };
    let hold = get("hold", 0) == 1;
    while (input.len() as i64) < limit_in {
        let want = (limit_in - input.len() as i64).min(chunk) as usize;
        let n = stdin.read(&mut buf[..want]).unwrap_or(0);
        if n == 0 {
            eof = true;
            break;
        }
        input.extend_from_slice(&buf[..n]);
        if !hold {
            send(&buf[..n], &mut sent, &mut open);
        }
    }
    if hold {
        let all = input.clone();
        send(&all, &mut sent, &mut open);
    }
    if get("tail", 1) == 1 && eof {
        send(format!("// formatted, {} bytes\n", input.len()).as_bytes(), &mut sent, &mut open);
    }
    if !eof {
        settle();
    }
    let _ = std::fs::write(format!("{me}.in"), &input);
    let _ = std::fs::write(format!("{me}.out"), &sent);
    let _ = std::io::stderr().write_all(&vec![b'e'; get("err", 0).max(0) as usize]);
    let sig = get("signal", 0);
    if sig > 0 {
        unsafe { kill(getpid(), sig as i32) };
    }
    std::process::exit(get("status", 0) as i32);
}
