//! C18: the explorer's service, with the real handlers and file system, and tools that go on when the seed says so.
use axum::body::Body;
use axum::http::Request;
use base64::prelude::{Engine, BASE64_STANDARD};
use check_explorer::{bindings, class, fnv, pages};
use serde_json::{json, Value};
use simkit::{check, ev, node, tree, Check, Node, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};
use tower::ServiceExt;

const PATIENCE: Duration = Duration::from_secs(20);

fn top() -> String {
    format!("/tmp/verif-c18.{:010}", std::process::id())
}
/// Below enough directories for `..` to stay within it.
fn base() -> String {
    format!("{}/1/2/3/4/5", top())
}
fn bins() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}
/// As nobody, or as who we are again.
fn act(nobody: bool) {
    let id = if nobody { 65534 } else { 0 };
    unsafe {
        if nobody {
            libc::setresgid(id, id, 0);
            libc::setresuid(id, id, 0);
        } else {
            libc::setresuid(0, 0, 0);
            libc::setresgid(0, 0, 0);
        }
    }
}

enum Event {
    Tool(BufReader<UnixStream>, String),
    Answer(usize, u16, Vec<u8>),
}

/// What a request must be answered with.
enum Want {
    Files(Vec<(String, Vec<u8>)>, Option<BTreeMap<String, BTreeSet<(String, u64)>>>),
    Error,
    /// An error, or nothing but these.
    AtMost(Vec<(String, Vec<u8>)>),
    Anything,
    Page(String),
}

struct Ask {
    uri: String,
    body: Vec<u8>,
    want: Want,
    /// What its tool does: writes, and ends.
    write: i64,
    end: i64,
    env: i64,
    /// When the client goes away: 1 and 2 before the tool reads, or ends.
    cancel: i64,
}

/// Pieces of file contents, with a mark of the request.
fn content(i: usize, kind: i64) -> Vec<u8> {
    let n = format!("// nonce{i}x\n");
    match kind.rem_euclid(8) {
        0 => vec![],
        1 => b"pub struct S;\n".to_vec(),
        2 => format!("{n}pub fn f() {{}}\n{}", "// more of it \u{e9}\n".repeat(8000)).into_bytes(),
        3 => [n.as_bytes(), &[0xff, 0xfe, b'\n', 0xc3]].concat(),
        4 => format!("{n}pub fn f() {{}}").into_bytes(),
        k => format!("{n}pub struct S{k};\n\n").into_bytes(),
    }
}
const ODD_NAMES: usize = 8;
fn cc_name(k: i64) -> (String, Option<&'static str>, bool) {
    let b = base();
    // The name, the stem of the outputs, and whether it cannot be made.
    match k.rem_euclid(16) {
        0 => ("a.rs.rs".into(), None, false),
        1 => ("../x.rs".into(), Some("x"), false),
        2 => (format!("{b}/outside/y.rs"), Some("y"), false),
        3 => ("..".into(), None, false),
        4 => ("".into(), None, false),
        5 => ("sub/dir/../z.rs".into(), Some("z"), false),
        6 => ("n".repeat(300), None, true),
        7 => ("nul\0.rs".into(), None, true),
        8 => ("lib".into(), Some("lib"), false),
        9 => ("\u{e9} \u{fc}.rs".into(), Some("\u{e9} \u{fc}"), false),
        10 => ("-o.rs".into(), Some("-o"), false),
        11 => ("my.mod.rs".into(), Some("my.mod"), false),
        12 => ("x/a.b".into(), Some("a.b"), false),
        _ => ("input.rs".into(), Some("input"), false),
    }
}
/// The name, where it must be, or none if that is none of the request's business.
fn dox_name(k: i64) -> (String, Option<String>) {
    let b = base();
    let fine = ["test.h", "a/b.cc", "a/c.hpp", "plain.txt", "d e.h", "x/y/z.h", "a/test.h", "\u{e9}.cpp"];
    match k.rem_euclid(24) {
        0 => ("../evil.h".into(), None),
        1 => ("../../outside/sentinel.h".into(), None),
        2 => (format!("{b}/outside/sentinel.h"), None),
        3 => ("a/../../evil.h".into(), None),
        4 => ("PEER/input.rs".into(), None),
        5 => (format!("{b}/tmp/evil.h"), None),
        6 => ("../../../../evil.h".into(), None),
        7 => ("PEER/xml/index.xml".into(), None),
        k => (fine[k as usize % 8].into(), Some(fine[k as usize % 8].into())),
    }
}
const DIST: [(&str, &str); 6] = [("index.html", "<app-root>"), ("app.js", "let a;"), ("assets/style.css", "b {}"), ("assets/index.html", "inner"), ("api.html", "about"), ("d/e/f.svg", "<svg/>")];

fn ask(i: usize, n: &Node) -> Ask {
    let mut a = Ask { uri: String::new(), body: vec![], want: Want::Error, write: 0, end: 0, env: 0, cancel: 0 };
    match n.op.as_str() {
        "cc" => {
            a.uri = "/api/compile".into();
            (a.write, a.end, a.env, a.cancel) = (n.a(3), n.a(4), n.a(5).rem_euclid(6), n.a(6).rem_euclid(3));
            let text = content(i, n.a(1));
            let odd = n.a(7).rem_euclid(8);
            let (name, stem, unmakeable) = cc_name(n.a(0));
            let mut b64 = BASE64_STANDARD.encode(&text);
            if odd == 1 {
                b64.push_str("*not*");
            }
            let mut files = vec![json!({"name": name, "contentsB64": b64})];
            if odd == 3 {
                files.clear();
            }
            if odd == 5 {
                files.push(json!({"name": "input_impl.rs", "contentsB64": BASE64_STANDARD.encode("other")}));
            }
            let flags: Vec<String> = (0..n.a(2).rem_euclid(4)).map(|f| format!("--sim{i}={f}")).collect();
            let tracing = n.a(2).rem_euclid(8) >= 4;
            let plugin = if odd == 2 { "rs_bindings_from_cc" } else { "cc_bindings_from_rs" };
            a.body = serde_json::to_vec(&json!({"pluginName": plugin, "enableCodegenTracing": tracing, "pluginFlags": flags, "input": {"files": files}})).unwrap();
            if odd == 4 {
                a.body.truncate(a.body.len() / 2);
            }
            let w = a.write % 100;
            if w == 2 && a.end == 0 {
                a.end = 1;
            }
            let mut all: Vec<String> = flags;
            if tracing {
                all.insert(0, "--enable-codegen-tracing".into());
            }
            let (mut h, mut r) = bindings(&text, &all.join(","));
            match w {
                7 => (h, r) = (String::new(), String::new()),
                8 => (h, r) = (h.repeat(9000), r.repeat(9000)),
                _ => {}
            }
            let names = |s: &str| stem.map_or(s.to_string(), |t| format!("{t}{s}"));
            if matches!(odd, 1..=4) || unmakeable || a.env != 0 || a.end != 0 || matches!(w, 1 | 2 | 3 | 4 | 5) {
                a.want = Want::Error;
            } else if w == 6 {
                a.want = Want::AtMost(vec![(names(".h"), h.into_bytes())]);
            } else if w == 9 {
                a.want = Want::AtMost(vec![(names("_impl.rs"), r.into_bytes())]);
            } else {
                a.want = Want::Files(vec![(names(".h"), h.into_bytes()), (names("_impl.rs"), r.into_bytes())], None);
            }
        }
        "dox" => {
            a.uri = ["/api/doxygen", "/doxygen"][n.ix(5, 2)].into();
            (a.write, a.end, a.env, a.cancel) = (n.a(0), n.a(1), n.a(2).rem_euclid(6), n.a(3).rem_euclid(3));
            let odd = n.a(4).rem_euclid(8);
            let (mut files, mut on_disk, mut stray) = (vec![], BTreeMap::new(), false);
            for (k, f) in n.kids.iter().enumerate() {
                let (name, at) = dox_name(f.a(0));
                let text = content(i, f.a(1));
                let mut b64 = BASE64_STANDARD.encode(&text);
                if odd == 1 && k + 1 == n.kids.len() {
                    b64.push('*');
                }
                files.push(json!({"name": name, "contentsB64": b64}));
                match at {
                    Some(p) => drop(on_disk.insert(p, text)),
                    None => stray = true,
                }
            }
            a.body = serde_json::to_vec(&json!({"input": {"files": files}})).unwrap();
            if odd == 4 {
                a.body.truncate(a.body.len() / 2);
            }
            let files: Vec<(String, Vec<u8>)> = on_disk.into_iter().collect();
            let w = a.write % 100;
            let broken = matches!(w, 1 | 2 | 6 | 8) || matches!(w, 3 | 4 | 5 | 9) && !files.is_empty();
            if stray {
                a.want = Want::Anything;
            } else if odd == 1 && !n.kids.is_empty() || odd == 4 || a.env != 0 || a.end != 0 || broken {
                a.want = Want::Error;
            } else if w == 7 {
                a.want = Want::Anything;
            } else {
                let mut out: Vec<(String, Vec<u8>)> = pages(&files, "doxyfile").into_iter().map(|(n, t)| (format!("xml/{n}"), t.into_bytes())).collect();
                if w == 10 {
                    out.push(("xml/more/more.xml".into(), b"<more/>".to_vec()));
                }
                let mut sym: BTreeMap<String, BTreeSet<(String, u64)>> = BTreeMap::new();
                for (k, (name, text)) in files.iter().enumerate() {
                    let (class, base, methods) = class(k, name, text);
                    sym.entry(base.clone()).or_default().insert((class.clone(), 10 + k as u64));
                    for (m, file, line) in methods {
                        sym.entry(file.unwrap_or(base.clone())).or_default().insert((format!("{class}::{m}"), line.unwrap_or(0)));
                    }
                }
                a.want = Want::Files(out, Some(sym));
            }
        }
        _ => {
            let b = base();
            let parts = ["/", "/..", "/.", "/%2e%2e", "/..%2f..%2fsecret.txt", "//", "/assets", "/secret.txt", "/dist-old/s.txt", &b, "/front/secret.txt", "/app.js", "/index.html",
                "/style.css", "\\..\\secret.txt", "/d", "/e", "/f.svg", "/api", "?x=../secret.txt", "/api.html", "/nothing", "/%2E%2E%2Fsecret.txt", "/outside/sentinel.h", "/assets/../../secret.txt", "/d/e/../../..", "/assets/..", "/embed"];
            a.uri = n.kids.iter().map(|k| parts[k.ix(0, parts.len())]).collect();
            if !a.uri.starts_with('/') {
                a.uri.insert(0, '/');
            }
            let path = a.uri.split('?').next().unwrap();
            let plain = path.trim_start_matches('/');
            a.want = match DIST.iter().find(|d| d.0 == plain) {
                Some(d) if !path.starts_with("/api") => Want::Page(d.1.into()),
                _ if plain.is_empty() || matches!(path, "/nothing" | "/embed" | "/embed/nothing") => Want::Page(DIST[0].1.into()),
                _ => Want::Anything,
            };
        }
    }
    a
}

struct Flight {
    i: usize,
    tool: BufReader<UnixStream>,
    phase: u8,
    gone: bool,
}

struct Sim {
    asks: Vec<Ask>,
    app: axum::Router,
    rt: tokio::runtime::Runtime,
    events: (Sender<Event>, Receiver<Event>),
    flights: Vec<Flight>,
    handles: Vec<Option<tokio::task::JoinHandle<()>>>,
    answered: Vec<bool>,
}

impl Sim {
    fn dirs() -> usize {
        fs::read_dir(format!("{}/tmp", base())).map_or(0, |d| d.count())
    }
    fn submit(&mut self, i: usize) {
        let b = base();
        let a = &self.asks[i];
        ev!("ask {i} {}", a.uri.replace(&b, "BASE"));
        for t in ["cc_bindings_from_rs", "doxygen"] {
            let p = format!("{b}/tools/{t}");
            let _ = fs::remove_file(&p);
            match a.env {
                1 => {}
                2 => fs::write(&p, "no program").unwrap(),
                _ => symlink(format!("{}/tool-{t}", top()), &p).unwrap(),
            }
        }
        match a.env {
            1 => simkit::fault("tool-missing"),
            2 => simkit::fault("tool-not-executable"),
            3 => simkit::fault("no-temporary-directory"),
            4 => simkit::fault("temporary-directory-not-writable"),
            5 => simkit::fault("temporary-directory-is-a-file"),
            _ => {}
        }
        let tmp = format!("{b}/tmp");
        let away = format!("{b}/tmp.away");
        let mode = |m| fs::set_permissions(&tmp, fs::Permissions::from_mode(m)).unwrap();
        match a.env {
            3 | 5 => {
                fs::rename(&tmp, &away).unwrap();
                if a.env == 5 {
                    fs::write(&tmp, "").unwrap();
                }
            }
            4 => mode(0o555),
            _ => {}
        }
        let mut body = a.body.clone();
        if let Ok(s) = String::from_utf8(body.clone())
            && s.contains("PEER")
        {
            let peer = fs::read_dir(&tmp).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).min();
            body = s.replace("PEER", &peer.map_or("../tmp".into(), |p| format!("../{p}"))).into_bytes();
        }
        let (tx, env) = (self.events.0.clone(), a.env);
        let builder = Request::builder().uri(&a.uri).method(if a.body.is_empty() { "GET" } else { "POST" }).header("content-type", "application/json");
        match builder.body(Body::from(body)) {
            Err(_) => {
                ev!("not a request");
                self.answered[i] = true;
            }
            Ok(r) => {
                let app = self.app.clone();
                self.handles[i] = Some(self.rt.spawn(async move {
                    let r = app.oneshot(r).await.unwrap();
                    let s = r.status().as_u16();
                    let b = axum::body::to_bytes(r.into_body(), usize::MAX).await.unwrap_or_default();
                    let _ = tx.send(Event::Answer(i, s, b.to_vec()));
                }));
                self.wait(i);
            }
        }
        match env {
            3 | 5 => {
                let _ = fs::remove_file(&tmp);
                let _ = fs::remove_dir_all(&tmp);
                fs::rename(&away, &tmp).unwrap();
            }
            4 => mode(0o755),
            _ => {}
        }
    }
    /// Until the tool of request `i` waits, or it is answered.
    fn wait(&mut self, i: usize) {
        let e = self.events.1.recv_timeout(PATIENCE);
        match e {
            Err(_) => {
                self.answered[i] = true;
                simkit::fail("no-answer", &format!("request {i} is not answered, though nothing holds it up"));
            }
            Ok(Event::Tool(tool, what)) => {
                ev!("tool of {i}: {what}");
                self.flights.push(Flight { i, tool, phase: 0, gone: false });
            }
            Ok(Event::Answer(j, s, b)) => {
                if j != i || self.answered[i] {
                    return simkit::fail("answer-twice", &format!("an answer to {j} when {i} was to be answered"));
                }
                self.answered[i] = true;
                self.judge(i, s, &b);
            }
        }
    }
    fn tell(f: &mut Flight, what: &str) -> bool {
        let mut l = String::new();
        writeln!(f.tool.get_mut(), "{what}").is_ok() && matches!(f.tool.read_line(&mut l), Ok(n) if n > 0)
    }
    fn advance(&mut self, k: usize) {
        let i = self.flights[k].i;
        let (write, end, cancel) = (self.asks[i].write, self.asks[i].end, self.asks[i].cancel);
        let f = &mut self.flights[k];
        f.phase += 1;
        if cancel > 0 && !f.gone && (cancel == 1 || f.phase == 3) {
            ev!("client of {i} goes away");
            simkit::fault("client-gone");
            f.gone = true;
            self.answered[i] = true;
            let h = self.handles[i].take().unwrap();
            h.abort();
            let _ = self.rt.block_on(h);
        }
        let alive = match f.phase {
            1 => Self::tell(f, "read"),
            2 => Self::tell(f, &format!("write {write}")),
            _ => false,
        };
        ev!("tool of {i}: step {}{}", f.phase, if alive { "" } else { ", ends" });
        if alive {
            return;
        }
        let mut f = self.flights.swap_remove(k);
        if f.phase > 2 {
            match end {
                0 => {}
                9 | 11 => simkit::fault("tool-killed"),
                _ => simkit::fault("tool-fails"),
            }
            let w = if matches!(end, 9 | 11) { "kill" } else { "exit" };
            let _ = writeln!(f.tool.get_mut(), "{w} {end}");
        }
        if !f.gone {
            drop(f);
            return self.wait(i);
        }
        // Without a client, only the tool's end can be waited for, and what is left of the request.
        let mut l = String::new();
        let _ = f.tool.read_line(&mut l);
        let t = Instant::now();
        while Self::dirs() > self.flights.len() && t.elapsed() < PATIENCE {
            std::thread::sleep(Duration::from_millis(1));
        }
        self.tidy();
    }
    fn tidy(&self) {
        let n = Self::dirs();
        check!(n <= self.flights.len(), "left-behind", "{n} temporary entries for {} requests under way", self.flights.len());
    }
    fn judge(&self, i: usize, status: u16, body: &[u8]) {
        let a = &self.asks[i];
        let v: Value = serde_json::from_slice(body).unwrap_or(Value::Null);
        let text = String::from_utf8_lossy(body);
        for j in 0..self.asks.len() {
            check!(j == i || !text.contains(&format!("nonce{j}x")), "mixed", "the answer to {i} tells of {j}");
        }
        if self.asks[i].body.is_empty() {
            ev!("page for {i}: {status} {}", text.len());
            check!(!text.contains("SECRET"), "leaked", "`{}` is answered with a file from outside", a.uri);
            let api = a.uri.starts_with("/api") || a.uri.starts_with("/doxygen");
            check!(api || status != 200 || DIST.iter().any(|d| d.1 == text), "wrong-page", "`{}` is answered with {text:?}", a.uri);
            if let Want::Page(p) = &a.want {
                check!(status == 200 && *p == text, "wrong-page", "`{}` is answered {status} {text:?} instead of {p:?}", a.uri);
            }
            return self.tidy();
        }
        let failed = status >= 400 || !v.is_object() || v.get("error").is_some_and(|e| !e.is_null());
        let out = v.get(if a.uri == "/api/compile" { "output" } else { "xmlOutput" });
        let got: Vec<(String, Vec<u8>)> = out.and_then(|o| o["files"].as_array().cloned()).unwrap_or_default().iter()
            .map(|f| (f["name"].as_str().unwrap_or("").to_string(), BASE64_STANDARD.decode(f["contentsB64"].as_str().unwrap_or("*")).unwrap_or_else(|_| b"not base64".to_vec()))).collect();
        ev!("answer to {i}: {status} {}", if failed { "error".to_string() } else { format!("{} files", got.len()) });
        let brief = text.chars().take(300).collect::<String>();
        check!(!failed || got.is_empty(), "both", "the answer to {i} is an error with files: {brief}");
        let same = |want: &[(String, Vec<u8>)]| {
            got.len() == want.len() && want.iter().all(|(n, t)| got.iter().any(|(m, u)| u == t && (m == n || n.starts_with(['.', '_']) && m.ends_with(n.as_str()))))
        };
        match &a.want {
            Want::Error => check!(failed, "false-success", "request {i} is answered with success: {brief}"),
            Want::Files(w, sym) => {
                check!(!failed, "false-error", "request {i} is answered with an error: {brief}");
                check!(failed || same(w), "wrong-answer", "request {i} is answered with {:?}, not {:?}", names(&got), names(w));
                if let (Some(sym), false) = (sym, failed) {
                    let mut m: BTreeMap<String, BTreeSet<(String, u64)>> = BTreeMap::new();
                    for (f, l) in v["fileSymbols"].as_object().into_iter().flatten() {
                        m.insert(f.clone(), l["symbols"].as_array().into_iter().flatten().map(|s| (s["name"].as_str().unwrap_or("").to_string(), s["line"].as_u64().unwrap_or(0))).collect());
                    }
                    check!(m == *sym, "wrong-symbols", "request {i} has the symbols {m:?}, not {sym:?}");
                }
                simkit::probe(if a.uri == "/api/compile" { "compiled" } else { "documented" });
            }
            Want::AtMost(w) => check!(failed || same(w), "wrong-answer", "request {i} is answered with {:?}", names(&got)),
            _ => {}
        }
        if failed {
            simkit::probe("refused");
        }
        self.tidy();
    }
}
fn names(f: &[(String, Vec<u8>)]) -> Vec<String> {
    f.iter().map(|(n, t)| format!("{n}:{:x}", fnv(t) & 0xffff)).collect()
}
/// All but the temporary directory.
fn listing(d: &Path, out: &mut BTreeMap<String, String>) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        let n = p.strip_prefix(top()).unwrap().display().to_string();
        if n.ends_with("5/tools") || n.ends_with("5/tmp") {
            continue;
        }
        if p.is_dir() {
            out.insert(n, String::new());
            listing(&p, out);
        } else if p.is_file() && !n.contains("tool-") {
            out.insert(n, fs::read_to_string(&p).unwrap_or_default());
        }
    }
}

fn run(case: &Node) {
    let (t, b) = (top(), base());
    let _ = fs::remove_dir_all(&t);
    fs::create_dir_all(&b).unwrap();
    for n in ["cc_bindings_from_rs", "doxygen"] {
        let to = format!("{t}/tool-{n}");
        if fs::hard_link(bins().join("explorer_tool"), &to).is_err() {
            fs::copy(bins().join("explorer_tool"), &to).unwrap();
        }
        fs::set_permissions(&to, fs::Permissions::from_mode(0o755)).unwrap();
    }
    let doxyfile = fs::read("/repo/crubit_explorer/Doxyfile").unwrap_or_default();
    for p in [&t, &format!("{t}/1"), &format!("{t}/1/2"), &format!("{t}/1/2/3"), &format!("{t}/1/2/3/4"), &b] {
        std::os::unix::fs::chown(p, Some(65534), Some(65534)).unwrap();
    }
    act(true);
    for d in ["tmp", "tools", "outside", "front/dist-old"] {
        fs::create_dir_all(format!("{b}/{d}")).unwrap();
    }
    let put = |p: &str, t: &str| {
        let p = format!("{b}/{p}");
        fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        fs::write(p, t).unwrap();
    };
    for (p, t) in DIST {
        put(&format!("front/dist/{p}"), t);
    }
    for p in ["secret.txt", "front/secret.txt", "front/dist-old/s.txt", "outside/sentinel.h"] {
        put(p, "SECRET");
    }
    fs::write(format!("{b}/Doxyfile"), doxyfile).unwrap();
    let mut before = BTreeMap::new();
    listing(Path::new(&t), &mut before);

    let set = |k: &str, v: String| unsafe { std::env::set_var(k, v) };
    set("TMPDIR", format!("{b}/tmp"));
    set("CC_BINDINGS_FROM_RS", format!("{b}/tools/cc_bindings_from_rs"));
    set("DOXYGEN", format!("{b}/tools/doxygen"));
    set("DOXYFILE", format!("{b}/Doxyfile"));
    set("SYSROOT", format!("{b}/outside"));
    set("PATH", "/usr/bin:/bin".into());
    set("SIM_SOCK", format!("{b}/sock"));
    let back = std::env::current_dir().unwrap();
    std::env::set_current_dir(format!("{b}/outside")).unwrap();

    let listener = UnixListener::bind(format!("{b}/sock")).unwrap();
    let asks: Vec<Ask> = case.kids.iter().filter(|k| k.op != "sched").enumerate().map(|(i, k)| ask(i, k)).collect();
    let n = asks.len();
    let events = channel();
    let tx = events.0.clone();
    std::thread::spawn(move || {
        for s in listener.incoming() {
            let Ok(s) = s else { break };
            s.set_read_timeout(Some(PATIENCE)).unwrap();
            let (mut r, mut l) = (BufReader::new(s), String::new());
            if r.read_line(&mut l).is_err() || l == "end\n" {
                break;
            }
            let _ = tx.send(Event::Tool(r, l.trim().to_string()));
        }
    });
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let app = explorer::sim_app(Some(PathBuf::from(format!("{b}/front/dist"))));
    let mut s = Sim { asks, app, rt, events, flights: vec![], handles: (0..n).map(|_| None).collect(), answered: vec![false; n] };
    let sched: Vec<i64> = case.kids.iter().filter(|k| k.op == "sched").flat_map(|k| k.args.clone()).collect();
    let (mut next, mut at) = (0, 0);
    while !simkit::failed() && (next < n || !s.flights.is_empty()) {
        let more = (next < n && s.flights.len() < 6) as usize;
        let c = sched.get(at).copied().unwrap_or(0).rem_euclid((s.flights.len() + more) as i64) as usize;
        at += 1;
        simkit::step();
        if c < more {
            next += 1;
            s.submit(next - 1);
        } else {
            s.advance(c - more);
        }
        if s.flights.len() > 1 {
            simkit::probe("overlap");
        }
        let st = s.flights.iter().fold(0u64, |h, f| simkit::mix(h ^ f.phase as u64 ^ (s.asks[f.i].uri.len() as u64) << 8 ^ (s.asks[f.i].write as u64) << 16 ^ (s.asks[f.i].end as u64) << 32));
        simkit::reached(simkit::mix(st ^ more as u64));
    }
    if next > 0 {
        simkit::nontrivial();
    }
    // Tools still waiting end with their socket.
    s.flights.clear();
    if !simkit::failed() {
        for i in 0..n {
            check!(s.answered[i], "no-answer", "request {i} is not answered");
        }
        if let Ok(Event::Answer(j, ..)) = s.events.1.try_recv() {
            simkit::fail("answer-twice", &format!("an answer too many, to {j}"));
        }
        s.tidy();
    }
    let _ = UnixStream::connect(format!("{b}/sock")).map(|mut c| c.write_all(b"end\n"));
    s.rt.shutdown_timeout(PATIENCE);
    let _ = fs::remove_file(format!("{b}/sock"));
    let mut after = BTreeMap::new();
    listing(Path::new(&t), &mut after);
    if !simkit::failed() {
        let diff: Vec<String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).map(|k| k.to_string()).collect();
        check!(diff.is_empty(), "outside", "written outside of the requests' directories: {diff:?}");
    }
    std::env::set_current_dir(back).unwrap();
    act(false);
    let _ = fs::remove_dir_all(&t);
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let calm = r.chance(1, 4);
    let fault = |r: &mut Rng, n: u64, v: &[i64]| if !calm && r.chance(1, n) { *r.pick(v) } else { 0 };
    let n = r.range(1, 7);
    let mut kids = vec![];
    for _ in 0..n {
        let write = |r: &mut Rng, most: i64| if !calm && r.chance(1, 3) { r.range(1, most) } else { 0 } + if r.chance(1, 6) { 100 } else { 0 };
        let end = fault(r, 4, &[1, 2, 101, 9, 11]);
        let env = fault(r, 8, &[1, 2, 3, 4, 5]);
        let cancel = fault(r, 8, &[1, 2]);
        let odd = fault(r, 6, &[1, 2, 3, 4, 5]);
        kids.push(match r.weighted(&[5, 4, 2]) {
            0 => node("cc", &[if r.chance(1, 3) { r.range(0, 15) } else { 15 }, r.range(0, 9), r.range(0, 15), write(r, 9), end, env, cancel, odd]),
            1 => {
                let files = (0..r.range(0, 3)).map(|_| node("file", &[if r.chance(1, 5) { r.range(0, 23) } else { r.range(8, 23) }, r.range(0, 9)])).collect();
                tree("dox", &[write(r, 10), end, env, cancel, odd, r.range(0, 1)], files)
            }
            _ => tree("get", &[], (0..r.range(1, 5)).map(|_| node("part", &[r.range(0, 27)])).collect()),
        });
    }
    let order: Vec<i64> = (0..n * 4).map(|_| if r.chance(1, 3) { 0 } else { r.range(0, 59) }).collect();
    kids.push(node("sched", &order));
    tree("case", &[], kids)
}

fn main() {
    let _ = ODD_NAMES;
    simkit::main(&Check {
        quick_cases: 5000,
        hang_secs: 120,
        rule: "a case is one to seven overlapping requests (compiling, documenting, static files; well-formed or not; with file names that lead elsewhere, shared names and contents), what happens to each (its tool missing, failing, killed, writing half, nothing, unreadable or malformed output; no temporary directory; a client that goes away), and the order in which requests arrive and tools start, write and end; non-trivial: a request was made; distinct by the whole case",
        states: "distinct (tools under way, how far, and what becomes of them)",
        real: &["crubit_explorer: router, handlers, resource lookup", "axum, tokio, the file system and processes"],
        stubs: &["cc_bindings_from_rs and doxygen: a stand-in whose output tells what it read", "runfiles: there are none", "no sockets: requests are given to the router"],
        assumptions: &["a tool that ends with success has done its job", "between two steps of tools at most one request is on its way"],
        expected_probes: &["compiled", "documented", "refused", "overlap"],
        ..Check::new("C18", generate, run)
    });
}
