//! A formatter that does what `<its own path>.cfg` says about the text it is given. The text says which
//! line that is: it has its number in it, as `_id7_`. Whatever it does, it does the same every time.
use std::io::{Read, Write};

unsafe extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
    fn close(fd: i32) -> i32;
    fn poll(p: *mut [u16; 4], n: u64, ms: i32) -> i32;
    fn ioctl(fd: i32, what: u64, ...) -> i32;
}
const FIONREAD: u64 = 0x541b;

/// Until the other side is done writing, or can write no more.
fn settle() {
    let (mut last, mut same) = (0, 0);
    loop {
        let mut p = [0u16; 4];
        if unsafe { poll(&mut p, 1, 2) } > 0 && p[3] & 0x10 != 0 {
            return;
        }
        let mut n = 0i32;
        unsafe { ioctl(0, FIONREAD, &mut n) };
        same = if n == last && n > 40_000 { same + 1 } else { 0 };
        last = n;
        if same > 20 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

fn main() {
    let me = std::env::current_exe().unwrap().display().to_string();
    let all = std::fs::read_to_string(format!("{me}.cfg")).unwrap_or_default();
    let (mut stdin, mut stdout) = (std::io::stdin().lock(), std::io::stdout().lock());
    // Enough to know which text this is.
    let mut input = vec![];
    let mut buf = vec![0; 1 << 16];
    let mut eof = false;
    while input.len() < 400 && !eof {
        let n = stdin.read(&mut buf[..400]).unwrap_or(0);
        eof = n == 0;
        input.extend_from_slice(&buf[..n]);
    }
    let head = String::from_utf8_lossy(&input).into_owned();
    let id = head.find("_id").map(|p| head[p + 3..].chars().take_while(char::is_ascii_digit).collect::<String>()).unwrap_or_default();
    let cfg = all.lines().find(|l| l.split(' ').next() == Some(&format!("id{id}"))).unwrap_or_default();
    let get = |k: &str, d: i64| cfg.split_whitespace().find_map(|w| w.strip_prefix(k)?.strip_prefix('=')?.parse::<i64>().ok()).unwrap_or(d);
    let (limit_in, limit_out, chunk) = (get("in", i64::MAX), get("out", i64::MAX), get("chunk", 1 << 16).clamp(1, 1 << 16));
    let swap = get("swap", 0) == 1;
    let mut sent = 0;
    let mut open = true;
    if get("early", 0) == 1 {
        unsafe { close(1) };
        open = false;
    }
    let mut send = |b: &[u8]| {
        if !open {
            return;
        }
        let b = &b[..b.len().min((limit_out - sent).max(0) as usize)];
        let swapped: Vec<u8>;
        let b = if swap {
            swapped = b.iter().map(|&c| if c == b'f' { b'F' } else { c }).collect();
            &swapped
        } else {
            b
        };
        if stdout.write_all(b).and_then(|_| stdout.flush()).is_err() {
            open = false;
        }
        sent += b.len() as i64;
    };
    let mut err = get("err", 0).max(0) as usize;
    if get("errfirst", 0) == 1 {
        let _ = std::io::stderr().write_all(&vec![b'e'; err]);
        err = 0;
    }
    if get("raw", 0) == 1 {
        send(b"// \xff\xe4\n");
    }
    let hold = get("hold", 0) == 1;
    if !hold {
        send(&input);
    }
    while (input.len() as i64) < limit_in && !eof {
        let want = (limit_in - input.len() as i64).min(chunk) as usize;
        let n = stdin.read(&mut buf[..want]).unwrap_or(0);
        eof = n == 0;
        input.extend_from_slice(&buf[..n]);
        if !hold {
            send(&buf[..n]);
        }
    }
    if hold {
        send(&input);
    }
    if get("tail", 1) == 1 && eof {
        send(format!("// formatted, {} bytes\n", input.len()).as_bytes());
    }
    if !eof {
        settle();
    }
    let _ = std::io::stderr().write_all(&vec![b'e'; err]);
    let sig = get("signal", 0);
    if sig > 0 {
        unsafe { kill(getpid(), sig as i32) };
    }
    std::process::exit(get("status", 0) as i32);
}
