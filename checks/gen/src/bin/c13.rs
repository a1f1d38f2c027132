//! C13: the same inputs and flags, run under surroundings that differ in everything the inputs do
//! not name: random bytes, addresses, directory order, time, process id, processors, working
//! directory, environment, stale files and earlier runs. Every byte of the outcome is the same.
use check_gen::*;
use simkit::{check, ev, node, tree, Check, Node, Rng};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

fn base() -> String {
    format!("/tmp/verif-c13.{}", std::process::id())
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn utimes(path: *const std::ffi::c_char, t: *const [i64; 4]) -> i32;
}

// ---- random crates ----------------------------------------------------------------------------

#[derive(Clone)]
struct Adt {
    path: String,
    /// 0 nothing, 1 Clone, 2 Clone + Copy + Default.
    level: i64,
    /// Alignment, destructor and so on do not matter here; whether a lifetime is needed does.
    generic: bool,
}

#[derive(Default)]
struct Unit {
    text: String,
    adts: Vec<Adt>,
    traits: Vec<String>,
    /// (path, is a type)
    items: Vec<(String, bool)>,
    dep: Vec<Adt>,
    counter: usize,
    salt: u64,
}

impl Unit {
    /// Names are out of order: what is written first does not sort first.
    fn name(&mut self, prefix: &str) -> String {
        self.counter += 1;
        let h = simkit::mix(self.salt ^ (self.counter as u64) << 8);
        format!("{prefix}{}{}{}", (b'A' + (h % 26) as u8) as char, (b'a' + (h >> 8) as u8 % 26) as char, self.counter)
    }
    /// A type made from a number. `need`: what the surrounding struct derives.
    fn ty(&self, n: i64, need: i64, depth: u32) -> String {
        let prim = ["i32", "u8", "f64", "bool", "u64", "i16", "usize", "f32", "char", "u32", "isize", "i64"];
        let (k, rest) = ((n % 24) as usize, n / 24);
        let adt = |rest: i64| {
            let all: Vec<&Adt> = self.adts.iter().chain(&self.dep).filter(|a| a.level >= need && !a.generic).collect();
            if all.is_empty() { prim[rest as usize % 12].to_string() } else { all[rest as usize % all.len()].path.clone() }
        };
        if depth == 0 || need >= 2 {
            return match k {
                0..=7 => prim[rest as usize % 12].into(),
                8..=10 => format!("[{}; {}]", prim[rest as usize % 12], 1 + rest / 12 % 4),
                _ => adt(rest),
            };
        }
        let sub = |m: i64| self.ty(rest / m + m, need, depth - 1);
        match k {
            0..=3 => prim[rest as usize % 12].into(),
            4..=8 => adt(rest),
            9 | 10 => format!("Option<{}>", sub(1)),
            11 => format!("Result<{}, {}>", sub(1), sub(7)),
            12 | 13 => format!("({}, {})", sub(1), sub(5)),
            14 => format!("({}, {}, {})", sub(1), sub(5), sub(11)),
            15 => format!("*const {}", sub(1)),
            16 => format!("*mut {}", sub(1)),
            17 => "String".into(),
            18 => format!("Vec<{}>", sub(1)),
            19 => "&'static str".into(),
            20 => format!("&'static [{}]", sub(1)),
            21 => format!("&'static {}", sub(1)),
            22 => format!("extern \"C\" fn({}) -> {}", prim[rest as usize % 12], prim[rest as usize / 12 % 12]),
            _ => ["std::collections::HashMap<i32, u8>", "std::rc::Rc<i32>", "Box<i32>", "()", "u128", "std::sync::Arc<u8>", "Box<Option<i32>>", "std::cell::Cell<i32>"][rest as usize % 8].into(),
        }
    }
    fn docs(&mut self, n: i64) {
        match n % 7 {
            1 => self.text.push_str("/// A line of documentation.\n"),
            2 => self.text.push_str("/// Two lines\n/// of it, with `code` and \"quotes\".\n"),
            3 => self.text.push_str("#[deprecated = \"old\"]\n"),
            4 => self.text.push_str("#[must_use]\n"),
            5 => self.text.push_str("#[doc(hidden)]\n"),
            _ => {}
        }
    }
    fn params(&self, n: i64) -> String {
        let mut s = String::new();
        for i in 0..n % 4 {
            let _ = write!(s, "p{i}: {}, ", self.ty(n / (4 + 31 * i) + 17 * i, 0, 2));
        }
        s
    }
    fn function(&mut self, n: i64, recv: &str) {
        let name = self.name("f").to_lowercase();
        let ret = if n % 3 == 0 { String::new() } else { format!(" -> {}", self.ty(n / 3 + 5, 0, 2)) };
        let q = match n % 13 {
            5 => "unsafe ",
            7 => "extern \"C\" ",
            9 => "async ",
            _ => "",
        };
        let p = self.params(n / 5);
        let _ = writeln!(self.text, "pub {q}fn {name}({recv}{p}){ret} {{ unimplemented!() }}");
    }
    fn item(&mut self, it: &Node, module: &str) {
        let at = |name: &str| format!("{module}::{name}");
        let (n, m) = (it.a(0), it.a(1));
        if it.op != "mo" && it.op != "re" && it.op != "im" && it.op != "ti" {
            let skip = ["al", "sp", "gn", "mb"].contains(&it.op.as_str()) as i64;
            self.docs((m / 3) * (1 - skip));
        }
        match it.op.as_str() {
            "st" => {
                let name = self.name("S");
                let level = m % 3;
                let mut fields = String::new();
                for i in 0..n % 5 {
                    let _ = write!(fields, "{}f{i}: {}, ", ["pub ", ""][(n / (7 + i)) as usize % 2], self.ty(n / (5 + 3 * i) + 29 * i, level, 2));
                }
                self.text.push_str(["", "#[derive(Clone)]\n", "#[derive(Clone, Copy)]\n"][level as usize]);
                self.text.push_str(["", "#[repr(C)]\n", "", "#[repr(align(16))]\n"][(m / 3 % 4) as usize]);
                if m / 12 % 5 == 1 && level == 0 {
                    let _ = writeln!(self.text, "pub struct {name} {{ {fields} }}\nimpl Drop for {name} {{ fn drop(&mut self) {{}} }}");
                } else if m / 12 % 5 == 2 {
                    let t = (0..1 + n % 3).map(|i| format!("pub {}, ", self.ty(n / (5 + 3 * i), level, 2))).collect::<String>();
                    let _ = writeln!(self.text, "pub struct {name}({t});");
                } else {
                    let _ = writeln!(self.text, "pub struct {name} {{ {fields} }}");
                }
                let path = at(&name);
                self.items.push((path.clone(), true));
                self.adts.push(Adt { path, level, generic: false });
            }
            "en" => {
                let name = self.name("E");
                let level = m % 3;
                self.text.push_str(["", "#[derive(Clone)]\n", "#[derive(Clone, Copy)]\n"][level as usize]);
                let mut v = String::new();
                let repr = m / 9 % 4;
                self.text.push_str(["", "", "#[repr(u8)]\n", "#[repr(C)]\n"][repr as usize]);
                for i in 0..1 + n % 5 {
                    match (n / (3 + i)) % 4 {
                        1 if repr < 3 => {
                            let _ = write!(v, "V{i}({}), ", self.ty(n / (5 + i), level, 1));
                        }
                        2 if repr < 3 => {
                            let _ = write!(v, "V{i} {{ a: {} }}, ", self.ty(n / (5 + i), level, 1));
                        }
                        _ => {
                            let _ = write!(v, "V{i}, ");
                        }
                    }
                }
                let _ = writeln!(self.text, "pub enum {name} {{ {v} }}");
                let path = at(&name);
                self.items.push((path.clone(), true));
                self.adts.push(Adt { path, level, generic: false });
            }
            "un" => {
                let name = self.name("U");
                let _ = writeln!(self.text, "#[repr(C)]\n#[derive(Clone, Copy)]\npub union {name} {{ pub a: {}, pub b: {} }}", self.ty(n, 2, 1), self.ty(n / 24, 2, 1));
                self.items.push((at(&name), true));
                self.adts.push(Adt { path: at(&name), level: 2, generic: false });
            }
            "gn" => {
                let name = self.name("G");
                let _ = writeln!(self.text, "#[derive(Clone)]\npub struct {name}<T> {{ pub t: T, pub u: {} }}", self.ty(n, 1, 1));
                let alias = self.name("A");
                let _ = writeln!(self.text, "pub type {alias} = {}<{}>;", at(&name), self.ty(n / 5, 1, 1));
                let by = self.name("f").to_lowercase();
                let _ = writeln!(self.text, "pub fn {by}(x: {}<{}>) {{}}", at(&name), self.ty(n / 7, 1, 1));
                self.items.push((at(&name), true));
            }
            "tr" => {
                let name = self.name("T");
                let _ = writeln!(self.text, "pub trait {name} {{ fn one(&self{}) -> i32; fn two(&mut self) {{}} }}", if n % 2 == 0 { format!(", x: {}", self.ty(n / 2, 0, 1)) } else { String::new() });
                // Not generic over anything: implement it for some.
                let mut seen = vec![];
                for i in 0..m % 4 {
                    let local: Vec<Adt> = self.adts.iter().filter(|a| !a.generic).cloned().collect();
                    if local.is_empty() {
                        break;
                    }
                    let a = &local[(m / (5 + 3 * i)) as usize % local.len()];
                    if seen.contains(&a.path) {
                        continue;
                    }
                    seen.push(a.path.clone());
                    let x = if n % 2 == 0 { format!(", x: {}", self.ty(n / 2, 0, 1)) } else { String::new() };
                    let _ = writeln!(self.text, "impl {} for {} {{ fn one(&self{x}) -> i32 {{ 1 }} }}", at(&name), a.path);
                }
                self.traits.push(at(&name));
                self.items.push((at(&name), true));
            }
            "im" => {
                let local: Vec<Adt> = self.adts.iter().filter(|a| !a.generic).cloned().collect();
                if local.is_empty() {
                    return;
                }
                let a = &local[n as usize % local.len()];
                let _ = writeln!(self.text, "impl {} {{", a.path);
                for i in 0..1 + m % 4 {
                    let k = m / (7 + 5 * i) + 131 * i;
                    if k % 9 == 4 {
                        let c = self.name("C").to_uppercase();
                        let _ = writeln!(self.text, "pub const {c}: i32 = {};", k % 1000);
                    } else {
                        self.function(k, ["", "&self, ", "&mut self, ", "self, "][(k / 11 % 4) as usize]);
                    }
                }
                self.text.push_str("}\n");
            }
            "fn" => self.function(n, ""),
            "cn" => {
                let c = self.name("K").to_uppercase();
                let _ = match m % 5 {
                    0 => writeln!(self.text, "pub const {c}: i32 = {};", n % 10000),
                    1 => writeln!(self.text, "pub const {c}: &str = \"{}\";", n % 10000),
                    2 => writeln!(self.text, "pub const {c}: f64 = {}.25;", n % 10000),
                    3 => writeln!(self.text, "pub static {c}: u8 = {};", n % 256),
                    _ => writeln!(self.text, "pub const {c}: [u8; 2] = [{}, 1];", n % 256),
                };
            }
            "re" => {
                if self.items.is_empty() {
                    return;
                }
                let (path, _) = self.items[n as usize % self.items.len()].clone();
                let name = self.name("R");
                let _ = writeln!(self.text, "pub use {path} as {name};");
            }
            "al" => {
                let name = self.name("A");
                let _ = writeln!(self.text, "pub type {name} = {};", self.ty(n, 0, 2));
            }
            // One of the few types that several annotated aliases compete for.
            "sp" => {
                let name = self.name("A");
                let t = ["&'static [u16]", "&'static [i8]", "*const u16", "Option<u16>", "(u16, u16)"][n as usize % 5];
                let cpp = ["std::One", "two::Two<int>", "Three", "four::f::Four"][m as usize % 4];
                let _ = write!(self.text, "#[doc=\"CRUBIT_ANNOTATE: specializes_cpp_type=\"]\n#[doc=\"CRUBIT_ANNOTATE: cpp_type={cpp}{}\"]\n", self.counter);
                for i in 0..m / 4 % 3 {
                    let _ = write!(self.text, "#[doc=\"CRUBIT_ANNOTATE: include_path=inc{}.h\"]\n", (m + i) % 5);
                }
                let _ = writeln!(self.text, "pub type {name} = {t};");
                let by = self.name("f").to_lowercase();
                let _ = writeln!(self.text, "pub fn {by}(x: {t}) {{}}");
            }
            // Cannot be bound, but must be.
            "mb" => {
                let by = self.name("f").to_lowercase();
                let bad = ["u128", "std::collections::HashMap<i32, u8>", "dyn_", "impl Fn(i32)"][n as usize % 4].replace("dyn_", "std::rc::Rc<i32>");
                let _ = writeln!(self.text, "#[doc=\"CRUBIT_ANNOTATE: must_bind=\"]\npub fn {by}(x: {bad}) {{}}");
            }
            // A bridged struct.
            "cp" => {
                let name = self.name("B");
                let how = ["cpp_type=outer::Cpp", "cpp_name=Renamed", "cpp_enum=enum class"][m as usize % 3];
                let _ = match m % 3 {
                    2 => writeln!(self.text, "#[doc=\"CRUBIT_ANNOTATE: {how}\"]\n#[repr(transparent)]\npub struct {name}(i32);\nimpl {name} {{ pub const A: Self = Self(1); pub const B: Self = Self(2); }}\nimpl {name} {{ pub const C: Self = Self(3); }}"),
                    _ => writeln!(self.text, "#[doc=\"CRUBIT_ANNOTATE: {how}{}\"]\n#[doc=\"CRUBIT_ANNOTATE: include_path=inc{}.h\"]\n#[derive(Clone, Copy)]\npub struct {name} {{ pub x: {} }}", self.counter, n % 5, self.ty(n, 2, 1)),
                };
                self.items.push((at(&name), true));
                self.adts.push(Adt { path: at(&name), level: (m % 3 != 2) as i64 * 2, generic: false });
            }
            // Conversions between our own types.
            "ti" => {
                let local: Vec<Adt> = self.adts.iter().filter(|a| !a.generic && a.path.starts_with("crate")).cloned().collect();
                if local.len() < 2 {
                    return;
                }
                let (a, b) = (&local[n as usize % local.len()], &local[m as usize % local.len()]);
                let key = format!("impl From<{}> for {}", b.path, a.path);
                if a.path != b.path && !self.text.contains(&key) {
                    let _ = writeln!(self.text, "{key} {{ fn from(_: {}) -> Self {{ unimplemented!() }} }}", b.path);
                }
            }
            "mo" => {
                let name = self.name("m").to_lowercase();
                let _ = writeln!(self.text, "pub mod {name} {{");
                let inner = at(&name);
                for k in &it.kids {
                    self.item(k, &inner);
                }
                self.text.push_str("}\n");
            }
            _ => {}
        }
    }
}

/// The text of a dependency and a crate.
fn render(case: &Node) -> (String, String) {
    let dep_spec = case.kids.iter().find(|k| k.op == "dep");
    let mut dep = Unit { salt: 7, ..Unit::default() };
    dep.text.push_str("#![allow(warnings)]\n");
    if let Some(d) = dep_spec {
        for k in &d.kids {
            dep.item(k, "crate");
        }
    }
    let mut u = Unit { salt: case.a(1) as u64, ..Unit::default() };
    u.text.push_str("//! A crate.\n#![allow(warnings)]\n");
    if dep_spec.is_some() {
        u.dep = dep.adts.iter().map(|a| Adt { path: a.path.replacen("crate", "dep", 1), ..a.clone() }).collect();
        u.items = dep.items.iter().map(|(p, t)| (p.replacen("crate", "dep", 1), *t)).collect();
    }
    if let Some(c) = case.kids.iter().find(|k| k.op == "crate") {
        for k in &c.kids {
            u.item(k, "crate");
        }
    }
    (dep.text, u.text)
}

// ---- runs -------------------------------------------------------------------------------------

fn quiet(cmd: &mut Command) -> &mut Command {
    cmd.env_clear().env("PATH", std::env::var("PATH").unwrap_or_default());
    for k in ["HOME", "RUSTUP_TOOLCHAIN", "RUSTUP_HOME", "CARGO_HOME"] {
        if let Ok(v) = std::env::var(k) {
            cmd.env(k, v);
        }
    }
    cmd
}

struct Input {
    name: &'static str,
    dep: bool,
    std_headers: bool,
    must_fail: bool,
}

/// Puts the inputs into `dir`. None: not a crate.
fn inputs(case: &Node, dir: &str) -> Option<Input> {
    fs::create_dir_all(dir).unwrap();
    let pool = case.ix(0, 4) == 0;
    if pool {
        let name = CRATES[case.a(1) as usize % CRATES.len()];
        for n in [name, "dep"] {
            for e in [format!("{n}.rs"), format!("lib{n}.rmeta")] {
                let _ = fs::copy(target().join("genpool").join(&e), format!("{dir}/{e}"));
            }
        }
        return Some(Input { name, dep: name == "user", std_headers: name == "traits", must_fail: name == "broken" || name == "mustbind" });
    }
    let (dep, text) = render(case);
    let has_dep = case.kids.iter().any(|k| k.op == "dep");
    let must_fail = text.contains("must_bind");
    fs::write(format!("{dir}/sim.rs"), text).unwrap();
    let rustc = |name: &str, more: &[&str]| {
        let o = quiet(&mut Command::new("rustc"))
            .args(["--edition=2021", "--crate-type=lib", "--cap-lints=allow", "-L.", &format!("--emit=metadata=lib{name}.rmeta"), &format!("--crate-name={name}")])
            .args(more)
            .arg(format!("{name}.rs"))
            .current_dir(dir)
            .stdin(Stdio::null())
            .output()
            .unwrap();
        if !o.status.success() && std::env::var_os("SIM_SHOW").is_some() {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        }
        o.status.success()
    };
    if has_dep {
        fs::write(format!("{dir}/dep.rs"), dep).unwrap();
        if !rustc("dep", &[]) {
            return None;
        }
    }
    rustc("sim", if has_dep { &["--extern=dep=libdep.rmeta"] } else { &[] }).then_some(Input { name: "sim", dep: has_dep, std_headers: false, must_fail })
}

/// The flags, all with relative paths: the same for every run of a case.
fn flags(input: &Input, bits: i64) -> Vec<String> {
    let name = input.name;
    let mut v: Vec<String> = ["--h-out=out/api.h", "--rs-out=out/impl.rs", "--cpp-out=out/touched.cc", "--error-report-out=out/report.json", "--crubit-support-path-format=\"support/{header}\""].map(String::from).into();
    v.push(format!("--default-features={}", ["supported,experimental", "supported", "all"][[0, 0, 0, 1, 2][bits as usize % 5]]));
    let on = |b: u32| bits >> b & 1 == 1;
    if on(3) {
        v.push("--h-out-include-guard=SOME_GUARD_H_".into());
    }
    if on(4) && on(5) {
        v.push("--is-golden-test".into());
    }
    if on(6) && on(7) {
        v.push("--kythe-annotations".into());
    }
    if on(8) {
        for i in [3, 1, 2] {
            v.push(format!("--extra-rs-srcs-include=extra/one{i}.h"));
        }
    }
    if on(9) {
        v.push(format!("--crate-namespace={name}=outer::inner"));
        v.push("--crate-namespace=dep=other::space".into());
    }
    if on(10) {
        v.push("--crubit-debug-path-format=https://code/{path}#{line}".into());
    }
    if on(11) {
        for (a, b) in [("dep", "renamed_dep"), ("zeta", "omega"), ("alpha", "beta"), ("std", "stdx")] {
            if !(a == "dep" && input.dep) {
                v.push(format!("--crate-rename={a}={b}"));
            }
        }
    }
    if on(12) {
        v.push(format!("--crate-feature={name}=layout_compat_tuple"));
        v.push(format!("--crate-feature={name}=thunkless_accessors"));
        v.push(format!("--crate-disabled-feature={name}=assume_lifetimes"));
    }
    if on(17) {
        v.push(format!("--crate-feature={name}=always_specialize_generics_in_cpp_api_from_rust"));
    }
    if on(18) {
        for f in ["async_fn_send_modulo_regions", "leading_colons_for_cpp_type", "ctor_plain_values"] {
            v.push(format!("--crate-feature={name}={f}"));
        }
    }
    if on(13) && on(14) {
        v.push("--portable-abi-compatible".into());
    }
    if input.std_headers || bits >> 16 & 15 == 1 {
        for s in ["core", "alloc", "std"] {
            v.push(format!("--crate-header={s}=gen/{s}.h"));
        }
    }
    v.push("--crate-header=dep=gen/dep_cc.h".into());
    v.push("--crate-header=dep=gen/dep_more.h".into());
    if on(15) {
        v.extend(["--enable-rmeta-interface=false".into(), "--".into(), format!("in/{name}.rs"), "--crate-type=lib".into(), "--edition=2021".into(), format!("--crate-name={name}"), format!("--sysroot={}", sysroot()), "-Ldependency=in".into()]);
        if input.dep {
            v.push("--extern=dep=in/libdep.rmeta".into());
        }
    } else {
        v.push(format!("--source-crate-name={name}"));
        v.push(format!("--extern={name}=in/lib{name}.rmeta"));
        if input.dep {
            v.push("--extern=dep=in/libdep.rmeta".into());
        }
        v.push(format!("--sysroot={}", sysroot()));
        v.push("-Ldependency=in".into());
    }
    v
}

#[derive(PartialEq)]
struct Outcome {
    end: End,
    files: Vec<Option<Vec<u8>>>,
    said: String,
}
const OUTS: [&str; 4] = ["api.h", "impl.rs", "touched.cc", "report.json"];

fn one(b: &str, gen: &str, i: usize, op: &Node, args: &[String]) -> Outcome {
    let bits = op.a(1);
    let seed = op.a(0) as u64;
    let on = |k: u32| bits >> k & 1 == 1;
    // Where it runs.
    let cwd = if on(0) { format!("{b}/w{i}/{}", "deeper/and ü spaced/".repeat(1 + (bits as usize >> 8) % 3)) } else { format!("{b}/w{i}") };
    fs::create_dir_all(format!("{cwd}/out")).unwrap();
    let to = format!("{cwd}/in");
    fs::create_dir_all(&to).unwrap();
    let mut names: Vec<_> = fs::read_dir(format!("{b}/in")).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    if on(1) {
        names.reverse();
    }
    for n in &names {
        let t = format!("{to}/{n}");
        fs::copy(format!("{b}/in/{n}"), &t).unwrap();
        if on(2) {
            let at = 100_000_000 + (simkit::mix(seed) % 2_000_000_000) as i64;
            let c = std::ffi::CString::new(t).unwrap();
            unsafe { utimes(c.as_ptr(), &[at, 0, at, 0]) };
        }
    }
    if on(3) {
        simkit::fault("unrelated-files");
        for k in 0..9 {
            fs::write(format!("{to}/unrelated{k}.txt"), "x").unwrap();
            fs::write(format!("{to}/libunrelated{k}.rmeta"), "not one").unwrap();
        }
    }
    if on(4) {
        simkit::fault("stale-outputs");
        for (k, o) in OUTS.iter().enumerate() {
            fs::write(format!("{cwd}/out/{o}"), "stale ".repeat((seed as usize / (k + 1)) % 50_000)).unwrap();
        }
    }
    let mut cmd = Command::new(gen);
    cmd.env_clear().env("PATH", "/usr/bin:/bin").env("LD_LIBRARY_PATH", format!("{}/lib", sysroot())).env("RUSTC_ICE", "0");
    cmd.env("LD_PRELOAD", target().join("ambient.so")).env("AMBIENT", format!("seed={seed}"));
    simkit::fault("ambient-seed");
    if on(5) {
        simkit::fault("environment");
        for (k, v) in [("HOME", "/nonexistent"), ("USER", "someone"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("TMPDIR", "/nonexistent/tmp"), ("COLUMNS", "31"), ("TERM", "xterm-256color"), ("CARGO_MANIFEST_DIR", "/elsewhere"), ("OUT_DIR", "/elsewhere/out"), ("SOURCE_DATE_EPOCH", "12345"), ("HOSTNAME", "elsewhere"), ("PWD", "/elsewhere"), ("PADDING", &"p".repeat(seed as usize % 9000))] {
            cmd.env(k, v);
        }
    }
    cmd.args(args).current_dir(&cwd).stdin(Stdio::null());
    // The addresses come from the seed and from nothing else.
    unsafe {
        cmd.pre_exec(|| {
            personality(0x0040000);
            Ok(())
        })
    };
    // Earlier runs with the same files.
    if on(6) {
        simkit::fault("earlier-run");
        let mut first = Command::new(gen);
        first.env_clear().env("LD_LIBRARY_PATH", format!("{}/lib", sysroot())).env("RUSTC_ICE", "0");
        let _ = first.args(args).arg(if on(7) { "--no-such-flag" } else { "--verbose" }).current_dir(&cwd).stdin(Stdio::null()).output();
    }
    let o = cmd.output().unwrap();
    let end = match (o.status.code(), o.status.signal()) {
        (Some(0), _) => End::Ok,
        (Some(c), _) => End::Failed(c),
        (None, s) => End::Killed(s.unwrap_or(0)),
    };
    let said = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if std::env::var_os("SIM_SHOW").is_some() {
        eprintln!("--- {end:?}\n{said}");
    }
    let said = said.replace(&cwd, "CWD").lines().map(thread_ids).collect::<Vec<_>>().join("\n");
    // A failed run promises nothing about the files.
    let files = OUTS.iter().map(|f| if end == End::Ok { fs::read(format!("{cwd}/out/{f}")).ok() } else { None }).collect();
    Outcome { end, files, said }
}

/// Panic messages and dumps carry the number the kernel gave the thread.
fn thread_ids(l: &str) -> String {
    match (l.find("thread '"), l.find("panicked at")) {
        (Some(_), Some(p)) => {
            let (a, z) = l.split_at(p);
            format!("{} {z}", a.split('(').next().unwrap_or(a))
        }
        _ => l.to_string(),
    }
}

fn run(case: &Node) {
    let b = base();
    let _ = fs::remove_dir_all(&b);
    let Some(input) = inputs(case, &format!("{b}/in")) else {
        simkit::probe("not-a-crate");
        let _ = fs::remove_dir_all(&b);
        return;
    };
    let bits = case.a(2);
    let args = flags(&input, bits);
    let gen = bins().join(GENERATOR).display().to_string();
    let mut first: Option<Outcome> = None;
    for (i, op) in case.kids.iter().filter(|k| k.op == "run").enumerate() {
        simkit::step();
        let o = one(&b, &gen, i, op, &args);
        let Some(f) = &first else {
            ev!("{:?}", o.end);
            simkit::probe(if o.end == End::Ok { "success" } else { "failure" });
            if input.must_fail && o.end != End::Ok {
                simkit::probe("fatal-errors");
            }
            simkit::reached(simkit::hash_bytes(1, o.files[0].as_deref().unwrap_or(o.said.as_bytes())));
            first = Some(o);
            continue;
        };
        simkit::nontrivial();
        check!(f.end == o.end, "end-differs", "{:?} and {:?}: {}", f.end, o.end, difference(f.said.as_bytes(), o.said.as_bytes()));
        for (k, n) in OUTS.iter().enumerate() {
            if let (Some(x), Some(y)) = (&f.files[k], &o.files[k]) {
                check!(x == y, "output-differs", "{n}: {}", difference(x, y));
            }
        }
        check!(f.said == o.said, "messages-differ", "{}", difference(f.said.as_bytes(), o.said.as_bytes()));
        if simkit::failed() {
            break;
        }
    }
    if std::env::var_os("SIM_KEEP").is_none() {
        let _ = fs::remove_dir_all(&b);
    }
}

fn difference(x: &[u8], y: &[u8]) -> String {
    let at = x.iter().zip(y).take_while(|(a, b)| a == b).count();
    let at = x[..at].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let cut = |s: &[u8]| String::from_utf8_lossy(&s[at.min(s.len())..(at + 160).min(s.len())]).into_owned();
    format!("from byte {at}: {:?} or {:?}", cut(x), cut(y))
}

fn items(r: &mut Rng, n: i64, depth: u32) -> Vec<Node> {
    let focus = r.usize(14);
    (0..n)
        .map(|_| {
            let mut w = [10u64, 5, 2, 2, 4, 8, 8, 3, 5, 3, 4, 0, 3, 3];
            w[focus] += 6;
            if focus != 11 {
                w[11] = 0;
            }
            let op = ["st", "en", "un", "gn", "tr", "im", "fn", "cn", "re", "al", "sp", "mb", "cp", "ti"][r.weighted(&w)];
            if depth > 0 && r.chance(1, 9) {
                let k = r.range(1, 6);
                return tree("mo", &[], items(r, k, depth - 1));
            }
            node(op, &[r.range(0, 1 << 30), r.range(0, 1 << 30)])
        })
        .collect()
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut kids = vec![];
    let pool = r.chance(1, 8);
    if !pool {
        if r.chance(1, 3) {
            let n = r.range(1, 8);
            kids.push(tree("dep", &[], items(r, n, 1)));
        }
        let n = *r.pick(&[3, 8, 15, 30]);
        let n = r.range(1, n);
        kids.push(tree("crate", &[], items(r, n, 2)));
    }
    let runs = r.range(3, 4);
    for i in 0..runs {
        kids.push(node("run", &[r.range(0, 1 << 40), if i == 0 { 0 } else { r.range(0, 1 << 12) & r.range(0, 1 << 12) }]));
    }
    tree("det", &[if pool { 0 } else { r.range(1, 3) }, r.range(0, 1 << 30), r.range(0, 1 << 21)], kids)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 700,
        hang_secs: 60,
        rule: "a case is a crate (made up, or from the pool) with flags, and runs of the generator on it in surroundings drawn from seeds; non-trivial: at least two runs ended; distinct by the whole case",
        states: "distinct headers (or messages, where the run failed)",
        real: &["the cc_bindings_from_rs binary built from the working tree, with the compiler library it drives"],
        stubs: &["random bytes, heap addresses, directory order, wall clock, process id and processor count come from a seed (shims/ambient)"],
        assumptions: &["the files a run reads and the flags are what it is a function of; a failed run promises the same messages and nothing about files"],
        expected_probes: &["success", "failure", "fatal-errors"],
        ..Check::new("C13", generate, run)
    })
}
