//! Stands for cc_bindings_from_rs and doxygen: reads, writes and ends when the simulator says so, and how.
use check_explorer::{bindings, pages};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::UnixStream;
use std::path::Path;

fn walk(d: &Path, at: &str, to: &mut Vec<(String, Vec<u8>)>) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let name = format!("{at}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            walk(&e.path(), &format!("{name}/"), to);
        } else {
            to.push((name, fs::read(e.path()).unwrap_or_default()));
        }
    }
}
fn lock(p: &str) {
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(0));
}

fn main() {
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let dox = args[0].ends_with("doxygen");
    let sock = UnixStream::connect(std::env::var("SIM_SOCK").unwrap()).unwrap();
    let mut lines = BufReader::new(sock.try_clone().unwrap()).lines();
    let say = |s: &str| writeln!(&sock, "{s}").unwrap();
    let opt = |n: &str| args.iter().find_map(|a| a.strip_prefix(n)).unwrap_or("").to_string();
    let input = args.iter().skip_while(|a| *a != "--").nth(1).cloned().unwrap_or_default();
    let mut text: Vec<u8> = vec![];
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut flags = args.iter().filter(|a| a.starts_with("--sim") || *a == "--enable-codegen-tracing").cloned().collect::<Vec<_>>().join(",");
    say(if dox { "dox" } else { "cc" });
    while let Some(Ok(l)) = lines.next() {
        let w: Vec<&str> = l.split(' ').collect();
        let n: i64 = w.get(1).and_then(|n| n.parse().ok()).unwrap_or(0);
        match w[0] {
            "read" if dox => {
                let mut s = String::new();
                let _ = std::io::stdin().read_to_string(&mut s);
                flags = if s.contains("XML_OUTPUT") { "doxyfile".into() } else { "nothing".into() };
                walk(Path::new("."), "", &mut files);
                files.sort();
                say("done");
            }
            "read" => {
                text = fs::read(&input).unwrap_or_else(|_| b"unread".to_vec());
                say("done");
            }
            "write" => {
                let all = if dox { files.iter().flat_map(|f| f.1.clone()).collect() } else { text.clone() };
                let talk = if n / 100 == 1 { 90_000 } else { 1 };
                let _ = std::io::stderr().write_all(format!("warning: in {} {}\n", String::from_utf8_lossy(&all), "e".repeat(talk)).as_bytes());
                let _ = std::io::stdout().write_all("o".repeat(talk).as_bytes());
                let n = n % 100;
                if dox {
                    doxygen(n, &files, &flags);
                } else {
                    let (h, r) = (opt("--h-out="), opt("--rs-out="));
                    let (ht, rt) = bindings(&text, &flags);
                    let put = |p: &str, t: &str| drop(fs::write(p, t));
                    match n {
                        1 => {}
                        2 => put(&h, &ht[..ht.len() / 2]),
                        3 => drop(fs::create_dir(&h)),
                        4 => { put(&h, &ht); lock(&h); put(&r, &rt); }
                        5 => { put(&h, &ht); put(&r, &rt); lock(&r); }
                        6 => put(&h, &ht),
                        9 => put(&r, &rt),
                        7 => { put(&h, ""); put(&r, ""); }
                        8 => { put(&h, &ht.repeat(9000)); put(&r, &rt.repeat(9000)); }
                        _ => { put(&h, &ht); put(&r, &rt); }
                    }
                }
                say("done");
            }
            "exit" => {
                drop(sock);
                std::process::exit(n as i32)
            }
            "kill" => {
                unsafe { libc::raise(n as i32) };
                std::process::exit(99)
            }
            _ => std::process::exit(98),
        }
    }
}

fn doxygen(n: i64, files: &[(String, Vec<u8>)], flags: &str) {
    if n == 1 || fs::create_dir("xml").is_err() {
        return;
    }
    for (k, (name, text)) in pages(files, flags).into_iter().enumerate() {
        let k = if name == "Doxyfile.xml" { 99 } else { k };
        let half = &text.as_bytes()[..text.len() / 2];
        // The first page is the index.
        let text = match (n, k) {
            (2, 0) | (4, 1) => half,
            (8, 0) => b"<doxygenindex>\xff</doxygenindex>",
            (3, 1) | (7, 0) => continue,
            _ => text.as_bytes(),
        };
        let text = if (n, k) == (9, 1) { String::from_utf8_lossy(text).replace("line=\"10", "line=\"ten").into_bytes() } else { text.to_vec() };
        let p = format!("xml/{name}");
        let _ = fs::write(&p, text);
        if (n, k) == (5, 1) || n == 6 && name == "Doxyfile.xml" {
            lock(&p);
        }
    }
    let _ = fs::write("xml/compound.xsd", "<schema/>");
    if n == 10 {
        let _ = fs::create_dir("xml/more");
        let _ = fs::write("xml/more/more.xml", "<more/>");
    }
}
