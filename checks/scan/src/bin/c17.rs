//! C17: the tools that read source files, as processes, with files and tools that behave as the seed says.
//! What is in a file is known because this is where it is put together.
use simkit::{check, ev, node, tree, Check, Node, Rng};
use std::fs;
use std::os::unix::fs::symlink;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn base() -> String {
    format!("/tmp/verif-c17.{}", std::process::id())
}
fn bins() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}
const EXTRACT: i64 = 0;
const COLLECT: i64 = 1;
const FMT: i64 = 2;
const NAMES: [&str; 3] = ["extract_cpp_from_rust", "collect", "rust_with_cpp_fmt"];

struct Macro {
    inline: bool,
    id: i64,
    line: usize,
    col: usize,
    /// Where the line with its first character starts, and the body.
    line_start: usize,
    body: std::ops::Range<usize>,
    body_line: usize,
    body_col: usize,
    /// Whether the extractor must reject it, and whether its optional lint has something to say.
    bad: bool,
    bindable: bool,
}

/// A source file, and what is known to be in it.
#[derive(Default)]
struct Src {
    text: String,
    macros: Vec<Macro>,
    /// Instantiations, without spaces.
    asked: Vec<String>,
    /// The text is no token tree: a delimiter has no partner.
    unbalanced: bool,
    /// A macro's own brace has no partner.
    open_macro: bool,
}

impl Src {
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
    fn at(&self) -> (usize, usize) {
        let start = self.text.rfind('\n').map_or(0, |p| p + 1);
        (self.text.matches('\n').count() + 1, self.text[start..].chars().count() + 1)
    }
    fn mac(&mut self, n: &Node) {
        let (id, style) = (n.a(0), n.a(2) as u64);
        let inline = n.ix(1, 3) == 0;
        let name = ["inline_cpp", "global_cpp", "DO_NOT_SUBMIT_CPP_DECL"][n.ix(1, 3)];
        self.put(["", "", "    ", "let π = ", "/* é𝒳 */ ", "fn w() { unsafe { ", "\t"][(style % 7) as usize]);
        let line_start = self.text.rfind('\n').map_or(0, |p| p + 1);
        let (line, col) = self.at();
        self.put(["", "", "::crubit_support::", "::", "support::inner::"][(style / 7 % 5) as usize]);
        self.put(name);
        self.put(["!", "!", " !", "\n!", " /* { */ !"][(style / 35 % 5) as usize]);
        self.put([" {", "{", "\n\n   {", " // why {\n {"][(style / 175 % 4) as usize]);
        let (body_line, body_col) = self.at();
        let start = self.text.len();
        let b = n.a(3) as u64;
        let (mut bad, mut bindable) = (false, false);
        if inline {
            let bodies = [
                format!(" (int v_id{id}_, int b) -> int {{ return v_id{id}_ + b; }} "),
                format!("\n        (const std::vector<int>& v_id{id}_)\n            -> std::string {{\n          if (v_id{id}_.empty()) {{ return \"}}\"; }}\n          return \"{{\"; // }} é\n        }}\n    "),
                format!("(void (*v_id{id}_)(int), char c)->bool{{ return c == '{{' || c == '\\''; }}"),
                format!(" () -> /* }} _id{id}_ */ auto {{\n\n\n   return R\"( }} )\"; }}"),
                format!("\t(std::function<int(int)> f_id{id}_ = {{}}) -> int {{ return 1'000; }}\r\n"),
                // Wrong in some way.
                format!(" int v_id{id}_ "),
                format!(" (int v_id{id}_) {{ return 1; }} "),
                format!(" (int v_id{id}_) -> int "),
                "  \n ".to_string(),
            ];
            let k = (b % bodies.len() as u64) as usize;
            bad = k > 4;
            self.put(&bodies[k]);
        } else {
            let bodies = [
                (format!(" template <class T> struct A_id{id}_ {{ T x; }}; "), false),
                (format!("\n#include <vector>\n#include \"a_id{id}_.h\"\nstruct B {{ int f(); }};\n"), false),
                (format!(" constexpr int k_id{id}_ = 7; // }} 漢\n"), false),
                (format!("\n    namespace n_id{id}_ {{ const char* s = \"}} {{\"; }}\n\n    using X = char;"), false),
                (format!(" /* {{ */ int y_id{id}_; char c = '}}'; "), false),
                (format!(" struct C_id{id}_ {{ int x; }}; "), true),
                (format!(" int f_id{id}_(int); "), true),
                (String::new(), false),
            ];
            let (t, l) = &bodies[(b % bodies.len() as u64) as usize];
            bindable = *l;
            self.put(t);
        }
        // Something long, so that one body is more than a pipe takes.
        if n.a(4) > 0 {
            for i in 0..n.a(4) {
                self.put(&format!("\n // {i} more 0123456789 0123456789 0123456789 é"));
            }
            // A body ends with its brace.
            if inline {
                bad = true;
            }
            self.put("\n");
        }
        let end = self.text.len();
        self.put("}");
        self.macros.push(Macro { inline, id, line, col, line_start, body: start..end, body_line, body_col, bad, bindable });
        self.put(["\n", "\n", ";\n", " fn z() {}\n"][(style / 700 % 4) as usize]);
        if style % 7 == 5 {
            self.put("}}\n");
        }
    }
    fn ask(&mut self, n: &Node) {
        let toks = [
            vec!["std", "::", "vector", "<", "int", ">"],
            vec!["MyTemplate", "<", "unsigned", "int", ",", "A", "<", "bool", ">", ">"],
            vec!["N", "::", "T", "<", "42", ",", "'a'", ">"],
            vec!["F", "<", "int", "(", "char", ",", "X", ")", ">"],
            vec!["S", "<", "\"text\"", ">"],
        ];
        let mut t: Vec<String> = toks[n.ix(0, toks.len())].iter().map(|s| s.to_string()).collect();
        t[0] = format!("{}{}", t[0], n.a(1));
        // With what between them does not matter, as long as words stay apart.
        let sep = ["", " ", "  ", "\n    ", " /* cc_template!(No) */ ", "\t"];
        let mut s = String::new();
        for (i, w) in t.iter().enumerate() {
            let word = |s: &str| s.chars().next().is_some_and(|c| c.is_alphanumeric());
            let mut k = (n.a(2) as usize + i * 5) % sep.len();
            if k == 0 && i > 0 && word(w) && word(&t[i - 1]) {
                k = 1;
            }
            if i > 0 {
                s.push_str(sep[k]);
            }
            s.push_str(w);
        }
        let (o, c) = [("(", ")"), ("{", "}"), ("[", "]")][n.ix(3, 3)];
        let path = ["", "", "::cc_template::", "some::path::"][n.ix(4, 4)];
        let bang = ["!", " !", "! "][n.ix(5, 3)];
        let (pre, post) = [("type T = ", ";\n"), ("fn f(x: &", ") {}\n"), ("m!{ a ", " b }\n"), ("fn g() { let v = [(", ")]; }\n"), ("pub struct Q(", ");\n"), ("", "\n")][n.ix(6, 6)];
        self.put(&format!("{pre}{path}cc_template{bang}{o}{s}{c}{post}"));
        self.asked.push(t.concat());
    }
    fn piece(&mut self, n: &Node) {
        let i = n.a(0);
        match n.op.as_str() {
            "mac" => self.mac(n),
            "ask" => self.ask(n),
            "mod" => {
                self.put(&format!("mod m{i} {{\n"));
                for k in &n.kids {
                    self.piece(k);
                }
                self.put("}\n");
            }
            "pad" => {
                for k in 0..i {
                    self.put(&format!("// line {k} of a long comment, with é and 漢字 and cc_template!(Nothing<{k}>)\n"));
                }
            }
            "open" => {
                self.unbalanced = true;
                let l = n.ix(1, 3);
                if l == 0 {
                    self.open_macro = true;
                }
                self.put(["global_cpp! { int x;\n", "fn f() {\n", "const A: [u8; 3] = [\n"][l]);
            }
            // Whatever looks like a macro and is none.
            _ => self.put(
                &[
                    format!("fn f{i}(a: i32) -> i32 {{ a + {i} }}\n"),
                    format!("// inline_cpp! {{ (int) }} and cc_template!(X<{i}>)\n"),
                    "/* global_cpp! { /* nested { */ int x; cc_template!(Y) */\n".to_string(),
                    format!("const S{i}: &str = \"global_cpp! {{ int x; }} cc_template!(Z)\";\n"),
                    format!("const R{i}: &str = r##\"inline_cpp! {{ \"# }} cc_template!(W)\"##;\n"),
                    format!("fn g{i}<'a>(c: char, _s: &'a str) -> bool {{ c == '{{' || c == '\\'' || c == '\"' }}\n"),
                    format!("fn h{i}() {{ let inline_cpp = true; let global_cpp = !inline_cpp; let cc_template = 1; }}\n"),
                    "macro_rules! global_cpp { ($($t:tt)*) => {}; }\n".to_string(),
                    format!("my_inline_cpp! {{ ({i}) }} inline_cpp_not! {{ a }} not_cc_template!(A) cc_template_::x!(B);\n"),
                    "use crubit::{inline_cpp, global_cpp}; use a::cc_template;\n".to_string(),
                    format!("fn p{i}(inline_cpp: i32) -> bool {{ inline_cpp != {{ 3 }} }}\n"),
                    "\r\n\r\n".to_string(),
                    format!("// über 漢字 𝒳 {i}\n"),
                    "#[doc = \"cc_template!(D)\"] /** global_cpp! { */ struct D;\n".to_string(),
                    "const B: &[u8] = b\"inline_cpp! { \\\" }\"; const C: u8 = b'{';\n".to_string(),
                ][n.ix(1, 15)],
            ),
        }
    }
}

fn thunk(target: &str, file: &str, line: usize, col: usize) -> String {
    let mut h = 0xcbf29ce484222325u64;
    let mut put = |b: &[u8]| b.iter().for_each(|x| h = (h ^ *x as u64).wrapping_mul(0x100000001b3));
    put(target.as_bytes());
    put(file.as_bytes());
    put(&(line as u64).to_ne_bytes());
    put(&(col as u64).to_ne_bytes());
    let name = Path::new(file).file_name().unwrap().to_str().unwrap();
    format!("inline_cpp_thunk_{}_{h:016x}", name.replace(['.', '-'], "_"))
}

/// How a stand-in tool treats the text with one number.
struct Manner {
    cfg: String,
    /// What it makes of this, if it succeeds.
    ok: bool,
    tail: bool,
}
fn manner(seed: i64, big: bool) -> Manner {
    let s = simkit::mix(seed as u64);
    let (x, y) = (simkit::mix(s ^ 1), simkit::mix(s ^ 2));
    let m = |cfg: String, ok: bool, tail: bool| Manner { cfg, ok, tail };
    match seed.rem_euclid(12) {
        0..=1 => m(String::new(), true, true),
        2 => m(format!("hold=1 chunk={}", 1 + x % 5000), true, true),
        3 => m(format!("chunk={} err={}", 1 + x % 40_000, y % 300_000), true, true),
        4 => m(format!("chunk={} err={} errfirst=1", 1 + x % 5000, y % 300_000), true, true),
        5 => m("tail=0".into(), true, false),
        6 => m(format!("status={} err={}", 1 + x % 255, y % 300_000), false, true),
        7 => m(format!("signal={}", [9, 6, 15, 10][(x % 4) as usize]), false, true),
        8 => m(format!("in={} signal={}", 400 + x % 9000, [9, 6, 15, 10][(y % 4) as usize]), false, true),
        9 => m("raw=1".into(), false, true),
        10 => m(format!("out={} status=1", x % 100_000), false, true),
        // Ends well without having read everything: noticed when there is too much for a pipe.
        _ if big => m(format!("in={}", 400 + x % 20_000), false, true),
        _ => m("early=1 status=3".into(), false, true),
    }
}

struct Input {
    path: String,
    src: Src,
    /// As it is on disk at first. None: nothing readable there.
    disk: Option<Vec<u8>>,
    ok: bool,
    want: String,
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Ok,
    Failed(i32),
    Killed(i32),
    Hung,
}

fn spawn(b: &str, tool: i64, args: &[String], env: &[(String, String)], stdin: Option<&str>, full: bool) -> (End, Vec<u8>, String) {
    let file = |p: &str| fs::File::create(p).unwrap();
    let mut c = Command::new(format!("{b}/bin/{}", NAMES[tool as usize]));
    c.env_clear().env("PATH", format!("{b}/tools")).args(args).current_dir(b).process_group(0);
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(stdin.map_or(Stdio::null(), |p| Stdio::from(fs::File::open(p).unwrap())));
    let out = if full { "/dev/full".to_string() } else { format!("{b}/stdout") };
    let o = if full { fs::File::options().write(true).open(&out).unwrap() } else { file(&out) };
    c.stdout(o).stderr(file(&format!("{b}/stderr")));
    let mut child = c.spawn().unwrap();
    let t = Instant::now();
    let end = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break match (s.code(), s.signal()) {
                (Some(0), _) => End::Ok,
                (Some(c), _) => End::Failed(c),
                (None, s) => End::Killed(s.unwrap_or(0)),
            };
        }
        if t.elapsed() > Duration::from_secs(15) {
            unsafe extern "C" {
                fn kill(pid: i32, sig: i32) -> i32;
            }
            unsafe { kill(-(child.id() as i32), 9) };
            let _ = child.wait();
            break End::Hung;
        }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 200 } else { 2000 }));
    };
    let said = fs::read(format!("{b}/stderr")).unwrap_or_default();
    let said = String::from_utf8_lossy(&said[..said.len().min(3000)]).replace(b, "BASE");
    if std::env::var_os("SIM_SHOW").is_some() {
        eprintln!("--- {end:?} {} {args:?} {env:?}\n{said}", NAMES[tool as usize]);
    }
    (end, if full { vec![] } else { fs::read(out).unwrap_or_default() }, said)
}

/// What the formatter must make of a text, given what the tools make of theirs.
fn formatted(i: usize, src: &Src, case: &Node, cf: &dyn Fn(i64, bool) -> Option<Manner>) -> Option<(String, bool)> {
    let rustfmt = case.kids.iter().find(|k| k.op == "rustfmt").map_or(0, |k| k.a(i));
    // Its text has its number in front.
    let m = manner(rustfmt, src.text.len() > 200_000);
    if !m.ok {
        return None;
    }
    let tail = if m.tail { format!("// formatted, {} bytes\n", src.text.len()) } else { String::new() };
    if src.open_macro {
        return None;
    }
    // One that changes nothing but letters.
    let text = if m.tail { src.text.clone() } else { src.text.replace('f', "F") };
    let mut out = text.clone() + &tail;
    for m in src.macros.iter().rev() {
        let body = text[m.body.clone()].trim();
        let prefix = match m.inline {
            false => "",
            true if body.starts_with('(') => "inline auto __crubit_fmt_wrapper",
            true => "void __crubit_fmt_wrapper()",
        };
        let input = if m.inline { format!("{prefix} {body}") } else { body.to_string() };
        let cpp = match cf(m.id, input.len() > 200_000) {
            None => input.clone(),
            // Without a number in it, the tool takes it as it takes everything by default.
            _ if !input.contains("_id") => format!("{input}// formatted, {} bytes\n", input.len()),
            Some(t) if t.ok => input.clone() + &if t.tail { format!("// formatted, {} bytes\n", input.len()) } else { String::new() },
            _ => input.clone(),
        };
        let cpp = if m.inline { cpp[prefix.len()..].trim_start() } else { &cpp };
        let indent = src.text[m.line_start..].chars().take_while(|c| *c == ' ').count();
        let indent = indent.min(src.text[m.line_start..m.body.start].len());
        let mut new = String::new();
        for l in cpp.trim_matches('\n').lines() {
            if l.trim().is_empty() {
                new.push('\n');
            } else {
                new.push_str(&format!("{:1$}{l}\n", "", indent + 4));
            }
        }
        let new = if new.is_empty() { "{}".to_string() } else { format!("{{\n{new}{:1$}}}", "", indent) };
        out.replace_range(m.body.start - 1..m.body.end + 1, &new);
    }
    Some((out, true))
}

fn run(case: &Node) {
    let b = base();
    let _ = fs::remove_dir_all(&b);
    for d in ["in/sub", "bin", "tools", "out"] {
        fs::create_dir_all(format!("{b}/{d}")).unwrap();
    }
    let tool = case.a(0).rem_euclid(3);
    let link = |from: &str, to: String| {
        if fs::hard_link(bins().join(from), &to).is_err() {
            fs::copy(bins().join(from), &to).unwrap();
        }
    };
    link(NAMES[tool as usize], format!("{b}/bin/{}", NAMES[tool as usize]));
    let tools = case.a(1);
    let cf_missing = tool == FMT && tools % 8 == 1;
    let rf_missing = tool == FMT && tools % 16 == 2;
    if tool == FMT {
        if !cf_missing {
            link("faketool", format!("{b}/tools/clang-format"));
        }
        if !rf_missing {
            link("faketool", format!("{b}/tools/rustfmt"));
        }
    }
    // The files.
    let mut inputs = vec![];
    let (mut rcfg, mut ccfg) = (String::new(), String::new());
    let manners: Vec<i64> = case.kids.iter().find(|k| k.op == "clang").map_or(vec![0], |k| k.args.clone());
    let cf = |id: i64, big: bool| (!cf_missing).then(|| manner(if manners.is_empty() { 0 } else { manners[(id as usize) % manners.len()] }, big));
    for (i, f) in case.kids.iter().filter(|k| k.op == "file").enumerate() {
        let mut src = Src::default();
        if tool == FMT {
            src.put(&format!("// _id{i}_\n"));
        }
        for p in &f.kids {
            src.piece(p);
        }
        if f.a(1) % 5 == 4 {
            while src.text.ends_with('\n') {
                src.text.pop();
            }
        }
        let names = ["a.rs", "sub/a.rs", "lib-two.rs", "sub/é ü.rs", "x.y.rs"];
        let path = if f.a(1) % 2 == 0 { format!("in/{}", names[i % 5]) } else { format!("{b}/in/{}", names[i % 5]) };
        let at = format!("{b}/in/{}", names[i % 5]);
        let mut disk = Some(src.text.clone().into_bytes());
        match f.a(0) {
            1 => {
                simkit::fault("file-missing");
                disk = None;
            }
            2 => {
                simkit::fault("file-is-a-directory");
                fs::create_dir(&at).unwrap();
                disk = None;
            }
            3 => {
                simkit::fault("file-not-utf8");
                let d = disk.as_mut().unwrap();
                let k = f.a(2) as usize % (d.len() + 1);
                d.insert(k, 0xff);
            }
            4 => {
                simkit::fault("file-dangling-link");
                symlink("/no/such/file", &at).unwrap();
                disk = None;
            }
            5 => {
                // Another name for the content, as build systems arrange it.
                let real = format!("{b}/out/real{i}");
                fs::write(&real, disk.as_ref().unwrap()).unwrap();
                symlink(&real, &at).unwrap();
            }
            _ => {}
        }
        if let Some(d) = &disk {
            fs::write(&at, d).unwrap();
        }
        let readable = disk.as_ref().is_some_and(|d| std::str::from_utf8(d).is_ok());
        let (ok, want) = match tool {
            EXTRACT => {
                let t = format!("//t:{}", case.a(1));
                let mut s = String::new();
                for m in src.macros.iter().filter(|m| !m.inline) {
                    s += &format!("#line {} \"{path}\"\n{:3$}{}\n", m.body_line, "", &src.text[m.body.clone()], m.body_col - 1);
                }
                for m in src.macros.iter().filter(|m| m.inline) {
                    s += &format!("inline auto {}\n#line {} \"{path}\"\n{:4$}{}\n\n", thunk(&t, &path, m.line, m.col), m.body_line, "", &src.text[m.body.clone()], m.body_col - 1);
                }
                let lint = case.a(2) & 8 > 0 && src.macros.iter().any(|m| m.bindable);
                (readable && !src.open_macro && !lint && !src.macros.iter().any(|m| m.bad), s)
            }
            COLLECT => (readable && !src.unbalanced, String::new()),
            _ => match formatted(i, &src, case, &cf) {
                Some((s, _)) => (readable && !rf_missing, s),
                None => (false, String::new()),
            },
        };
        if tool == FMT {
            let r = case.kids.iter().find(|k| k.op == "rustfmt").map_or(0, |k| k.a(i));
            let cfg = manner(r, src.text.len() > 200_000).cfg;
            rcfg += &format!("id{i} {cfg}{}\n", if cfg == "tail=0" { " swap=1" } else { "" });
            for m in &src.macros {
                let body = src.text[m.body.clone()].trim();
                let l = body.len() + if m.inline { 24 } else { 0 };
                if let Some(t) = cf(m.id, l > 200_000) {
                    ccfg += &format!("id{} {}\n", m.id, t.cfg);
                    if !t.ok {
                        simkit::fault("clang-format-fails");
                    }
                }
            }
            if !manner(r, src.text.len() > 200_000).ok {
                simkit::fault("rustfmt-fails");
            }
        }
        if src.text.len() > 200_000 {
            simkit::probe("larger-than-pipes");
        }
        inputs.push(Input { path, src, disk, ok, want });
    }
    if cf_missing || rf_missing {
        simkit::fault("tool-missing");
    }
    fs::write(format!("{b}/tools/rustfmt.cfg"), rcfg).unwrap();
    fs::write(format!("{b}/tools/clang-format.cfg"), ccfg).unwrap();
    let outputs = case.a(2);
    for (k, op) in case.kids.iter().filter(|k| k.op == "run").enumerate() {
        if simkit::failed() || inputs.is_empty() {
            break;
        }
        simkit::step();
        one(&b, tool, k, case, op, &mut inputs, outputs);
    }
    simkit::nontrivial();
    let _ = fs::remove_dir_all(&b);
}

fn one(b: &str, tool: i64, k: usize, case: &Node, op: &Node, inputs: &mut [Input], outputs: i64) {
    // In which order they are given.
    let mut order: Vec<usize> = (0..inputs.len()).collect();
    let n = order.len();
    order.rotate_left(op.ix(0, n));
    if op.a(0) / 7 % 2 == 1 {
        order.reverse();
    }
    let abs = |i: usize| if inputs[i].path.starts_with('/') { inputs[i].path.clone() } else { format!("{b}/{}", inputs[i].path) };
    // As at first, for the formatter has changed it.
    if tool == FMT {
        for i in 0..n {
            if let Some(d) = &inputs[i].disk {
                fs::write(abs(i), d).unwrap();
            }
        }
    }
    let out = format!("{b}/out/header.h");
    let _ = fs::remove_dir_all(&out);
    let _ = fs::remove_file(&out);
    let stale = "stale header, longer than what is to come\n".repeat((op.a(2) % 3000) as usize);
    let state = op.ix(1, 5);
    match state {
        1 => fs::write(&out, &stale).unwrap(),
        2 if tool == EXTRACT => {
            simkit::fault("output-is-a-directory");
            fs::create_dir(&out).unwrap();
        }
        3 if tool == EXTRACT => {
            simkit::fault("output-full");
            symlink("/dev/full", &out).unwrap();
        }
        _ => {}
    }
    let mode = if tool == FMT { outputs % 3 } else { 0 };
    let dev_full = tool != EXTRACT && !(tool == FMT && mode == 0) && state == 3;
    if dev_full {
        simkit::fault("output-full");
    }
    let mut args: Vec<String> = vec![];
    let mut stdin = None;
    match tool {
        EXTRACT => {
            args.push("--srcs".into());
            args.extend(order.iter().map(|&i| inputs[i].path.clone()));
            args.push(format!("--target=//t:{}", case.a(1)));
            args.push(format!("--out={out}"));
            if outputs & 8 > 0 {
                args.push("--fail-on-bindable".into());
            }
        }
        COLLECT => args.push(format!("[{}]", order.iter().map(|&i| format!("\"{}\"", inputs[i].path)).collect::<Vec<_>>().join(","))),
        _ => {
            if mode == 2 {
                // From standard input.
                order.truncate(1);
                match &inputs[order[0]].disk {
                    Some(_) => stdin = Some(abs(order[0])),
                    None => return,
                }
            } else {
                if mode == 0 {
                    args.push("-i".into());
                }
                args.extend(order.iter().map(|&i| inputs[i].path.clone()));
            }
            for (f, p) in [("rustfmt", "rustfmt"), ("clang-format", "clang-format")] {
                if outputs & 16 > 0 {
                    args.push(format!("--{f}-exe-path={b}/tools/{p}"));
                }
            }
        }
    }
    // Without the shims, tools could not be found: they are looked up by their names in PATH.
    let io = format!("{b}/io");
    let _ = fs::remove_file(&io);
    let mut env = vec![];
    if op.a(3) > 0 {
        let t = bins().parent().unwrap().display().to_string();
        env.push(("LD_PRELOAD".to_string(), format!("{t}/simio.so {t}/ambient.so")));
        let mut spec = format!("prog={};root={b}/in;root={b}/out;out={io};reads=1;std=1", NAMES[tool as usize]);
        if op.a(4) > 0 {
            spec += &format!(";drip={}", op.a(4));
        }
        if op.a(5) > 0 {
            spec += &format!(";wdrip={}", op.a(5));
        }
        for f in &op.kids {
            spec += &format!(";{}={}:{}", if f.op == "io" { "fault" } else { "pfault" }, 1 + f.a(0), KINDS[f.ix(1, if f.op == "io" { KINDS.len() } else { 2 })]);
        }
        env.push(("SIMIO".to_string(), spec));
        env.push(("AMBIENT".to_string(), format!("prog={};seed={}", NAMES[tool as usize], op.a(3))));
    }
    let (end, stdout, said) = spawn(b, tool, &args, &env, stdin.as_deref(), dev_full);
    let (mut hard_in, mut hard_out) = (false, false);
    for l in fs::read_to_string(&io).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() > 2 && f[1] != "ops" {
            simkit::fault(&format!("io-{}-{}", f[1], f[2]));
            if !["short", "eintr"].contains(&f[1]) {
                hard_out |= f[2] == "write" || f[2] == "open" || f[1] == "kill";
                hard_in |= f[2] == "read" || f[2] == "open" || f[1] == "kill";
            }
        }
    }
    let bad_out = (tool == EXTRACT && (state == 2 || state == 3)) || dev_full;
    let all_ok = order.iter().all(|&i| inputs[i].ok);
    ev!("run {k} of {} -> {end:?} ok={all_ok} in={hard_in} out={hard_out} {bad_out}", NAMES[tool as usize]);
    simkit::reached(simkit::mix((tool as u64) | (mode as u64) << 3 | (all_ok as u64) << 8 | (hard_in as u64) << 9 | (hard_out as u64) << 10 | ((end == End::Ok) as u64) << 11 | (bad_out as u64) << 12 | (n as u64) << 16 | (inputs.iter().map(|i| i.src.macros.len() + i.src.asked.len()).sum::<usize>() as u64) << 24));
    check!(end != End::Hung, "hang", "{} never ends", NAMES[tool as usize]);
    if simkit::failed() {
        return;
    }
    let success = end == End::Ok;
    if success {
        simkit::probe(["extracted", "collected", "formatted"][tool as usize]);
        if hard_in || hard_out {
            simkit::probe("success-despite-fault");
        }
    } else {
        simkit::probe(["not-extracted", "not-collected", "not-formatted"][tool as usize]);
    }
    // Nothing written is nothing lost.
    let nothing = tool == FMT && order.iter().all(|&i| inputs[i].want.is_empty());
    if success {
        let why = order.iter().find(|&&i| !inputs[i].ok).map(|&i| (i, inputs[i].disk.is_none(), inputs[i].src.unbalanced));
        check!(all_ok, "success-for-bad-input", "{} succeeds, and a file (number, unreadable, unbalanced) {why:?} cannot be processed", NAMES[tool as usize]);
        check!(!bad_out || nothing, "success-without-output", "{} succeeds, and its output went nowhere", NAMES[tool as usize]);
    } else {
        check!(!all_ok || hard_in || hard_out || bad_out, "failed-without-reason", "{}: {end:?} {said}", NAMES[tool as usize]);
        check!(!said.trim().is_empty() || matches!(end, End::Killed(_)) || hard_out, "failed-silently", "{}: {end:?}", NAMES[tool as usize]);
    }
    let clip = |s: &[u8], at: usize| String::from_utf8_lossy(&s[at.min(s.len())..(at + 80).min(s.len())]).into_owned();
    let same = |what: &str, got: &[u8], want: &[u8]| {
        let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        let class = if got.len() < want.len() && at == got.len() { "partial-result" } else { "wrong-result" };
        check!(got == want, class, "{what} has {} bytes for {}; from {at}: {:?} for {:?}", got.len(), want.len(), clip(got, at).replace(b, "BASE"), clip(want, at).replace(b, "BASE"));
    };
    match tool {
        EXTRACT => {
            let content: String = order.iter().map(|&i| inputs[i].want.as_str()).collect();
            let g = "CRUBIT_EXTRACTED_GLOBAL_CPP_H_";
            let want = format!("#ifndef {g}\n#define {g}\n\n{content}\n#endif  // {g}\n");
            if success && !bad_out {
                same("the header", &fs::read(&out).unwrap_or_default(), want.as_bytes());
            } else if !bad_out && !hard_out {
                // Nothing of a failed run.
                let left = fs::read(&out).ok();
                let before = (state == 1).then(|| stale.clone().into_bytes());
                check!(left == before, "partial-result", "a failed extraction leaves {:?} bytes", left.map(|l| l.len()));
            }
        }
        COLLECT => {
            let mut v: Vec<String> = order.iter().flat_map(|&i| inputs[i].src.asked.clone()).collect();
            v.sort();
            v.dedup();
            let want = format!("{}\n", serde_json::to_string(&v).unwrap());
            if success && !bad_out {
                same("the list", &stdout, want.as_bytes());
            } else if !hard_out && !bad_out {
                check!(stdout.is_empty(), "partial-result", "a failed collection says {:?}", clip(&stdout, 0));
            }
        }
        _ if mode == 0 => {
            let mut before = true;
            for &i in &order {
                let got = fs::read(abs(i)).ok();
                let Some(d) = &inputs[i].disk else {
                    before = false;
                    continue;
                };
                let got = got.unwrap_or_default();
                if !inputs[i].ok {
                    before = false;
                }
                if success {
                    same("a formatted file", &got, inputs[i].want.as_bytes());
                } else if !hard_out {
                    // One that is not formatted stays what it was.
                    let changed = &got != d;
                    check!(!changed || (before && got == inputs[i].want.as_bytes()), "partial-result", "after a failure, a file has {} bytes, which is neither what it had ({}) nor what it should have ({}, possible {before})", got.len(), d.len(), inputs[i].want.len());
                    check!(changed || hard_in || !before || got == inputs[i].want.as_bytes(), "left-out", "a good file before the bad one was not formatted");
                }
            }
        }
        _ if !dev_full => {
            let want: Vec<u8> = order.iter().take_while(|&&i| inputs[i].ok).flat_map(|&i| inputs[i].want.clone().into_bytes()).collect();
            if success {
                same("the output", &stdout, &want);
            } else {
                check!(want.starts_with(&stdout), "wrong-result", "a failed run wrote {} bytes that are not the start of the {} expected", stdout.len(), want.len());
                if mode == 1 && !hard_in && !hard_out {
                    check!(stdout == want, "left-out", "the good files before a bad one: {} bytes of {}", stdout.len(), want.len());
                }
            }
        }
        _ => {}
    }
}

const KINDS: [&str; 10] = ["short", "eintr", "enospc", "eio", "full", "torn", "kill", "eacces", "emfile", "after"];

fn pieces(r: &mut Rng, tool: i64, id: &mut i64, depth: usize) -> Vec<Node> {
    let mut v = vec![];
    for _ in 0..r.range(0, 7) {
        v.push(match r.weighted(&[8, 10, if depth < 2 { 2 } else { 0 }, 1]) {
            0 => node("text", &[r.range(0, 99), r.range(0, 14)]),
            2 => tree("mod", &[r.range(0, 99)], pieces(r, tool, id, depth + 1)),
            3 => {
                let hi = *r.pick(&[20, 20, 20, 400]);
                node("pad", &[r.range(1, hi)])
            }
            _ if tool == COLLECT => node("ask", &[r.range(0, 4), r.range(0, 3), r.range(0, 5), r.range(0, 2), r.range(0, 3), r.range(0, 2), r.range(0, 5)]),
            _ => {
                *id += 1;
                let inline = r.range(0, 2);
                // Bodies that are errors to the extractor stay rare.
                let body = if r.chance(1, 14) { r.range(0, 8) } else { r.range(0, 4) };
                let long = if tool == FMT && r.chance(1, 10) { *r.pick(&[1, 40, 6000]) } else { 0 };
                node("mac", &[*id, inline, r.range(0, 2799), body, long])
            }
        });
    }
    v
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let tool = r.weighted(&[4, 4, 5]) as i64;
    let mut kids = vec![];
    let files = r.range(1, if tool == FMT { 3 } else { 5 });
    let mut id = 100;
    for _ in 0..files {
        let mut p = pieces(r, tool, &mut id, 0);
        if r.chance(1, 24) {
            p.push(node("open", &[0, r.range(0, 2)]));
        }
        if tool == FMT && r.chance(1, 6) {
            p.push(node("pad", &[3000]));
        }
        let state = if r.chance(1, 7) { r.range(1, 5) } else { 0 };
        kids.push(tree("file", &[state, r.range(0, 19), r.range(0, 1 << 20)], p));
    }
    if tool == FMT {
        // Most do well.
        let one = |r: &mut Rng, bad: u64| {
            let x = r.range(0, 1 << 20);
            x * 12 + if r.chance(bad, 10) { r.range(6, 11) } else { r.range(0, 5) }
        };
        let v: Vec<i64> = (0..files).map(|_| one(r, 1)).collect();
        kids.push(node("rustfmt", &v));
        let v: Vec<i64> = (0..r.range(1, 4)).map(|_| one(r, 3)).collect();
        kids.push(node("clang", &v));
    }
    for k in 0..r.range(2, 3) {
        let plain = k == 0 && r.chance(1, 2);
        let mut f = vec![];
        if !plain {
            for _ in 0..r.range(0, 2) {
                let hi = *r.pick(&[4, 12, 40]);
                f.push(node("io", &[r.range(0, hi), r.weighted(&[3, 3, 2, 2, 2, 2, 2, 1, 1, 1]) as i64]));
            }
            if tool == FMT {
                for _ in 0..r.range(0, 2) {
                    f.push(node("pipe", &[r.range(0, 12), r.range(0, 1)]));
                }
            }
        }
        let drip = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&[7, 13, 64, 500, 4096]) } else { 0 };
        let (a, c) = if plain { (0, 0) } else { (drip(r), drip(r)) };
        kids.push(tree("run", &[r.range(0, 13), r.weighted(&[5, 4, 1, 1]) as i64, r.range(0, 1 << 20), if plain { 0 } else { r.range(1, 1 << 30) }, a, c], f));
    }
    tree("scan", &[tool, r.range(0, 63), r.range(0, 31)], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 3000,
        hang_secs: 120,
        rule: "a case is one of the three tools, a set of source files put together from known pieces, how the external formatters treat each text, and two or three runs of the tool over them, each with an order, a hash seed, a way of reading and writing, failing file operations and a state of the output; non-trivial: a run ended; distinct by the whole case",
        states: "distinct (tool, mode, files, macros, faults on input or output, end)",
        real: &["extract_cpp_from_rust", "rust_with_cpp_fmt", "CollectInstantiationsImpl in a process of its own, all built from the working tree", "the compiler's lexer"],
        stubs: &["rustfmt and clang-format: a stand-in that passes text on and misbehaves as told", "unicode-properties: a stand-in for the lexer's question whether a character is an emoji"],
        assumptions: &["a formatter that ends with success has done its job"],
        expected_probes: &["extracted", "collected", "formatted", "not-extracted", "not-collected", "not-formatted", "success-despite-fault", "larger-than-pipes"],
        ..Check::new("C17", generate, run)
    })
}
