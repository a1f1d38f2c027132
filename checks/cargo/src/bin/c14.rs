//! C14: the cargo subcommand over histories of edits, configuration switches, deletions, failing
//! and killed runs. After every success the headers and the static library are those of a build
//! from an empty target directory.
use check_cargo::{units, Config, Crate, World, TRIPLE};
use simkit::{check, ev, node, tree, Check, Node, Rng};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn utimensat(dir: i32, path: *const i8, times: *const [i64; 4], flags: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

const NAMES: [&str; 6] = ["my-root", "alpha", "beta", "gamma", "delta", "macros"];
const TOOL: &str = "cargo-cpp_api_from_rust";

fn bins() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}
fn base() -> String {
    format!("/tmp/verif-c14.{}", std::process::id())
}

struct Sim {
    base: String,
    w: World,
    c: Config,
    /// Which output and target directories are selected.
    out: usize,
    target: usize,
    generator: u64,
    /// The features as flags: 0 default, 1 all, 2 none, 3.. selected.
    flags: u64,
    runs: u64,
}

#[derive(Debug, PartialEq, Clone)]
enum End {
    Ok,
    Failed,
    Killed,
}

impl Sim {
    fn new(case: &Node) -> Sim {
        let base = base();
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(format!("{base}/ws/my-root")).unwrap();
        fs::create_dir_all(format!("{base}/bin")).unwrap();
        let n = 1 + case.ix(0, 5);
        let mut w = World { clock: 1_000_000_000_000, ..World::default() };
        for (i, name) in NAMES.iter().enumerate() {
            w.crates.push(Crate { name: name.to_string(), version: 1, rev: 1, proc_macro: i == 5, ..Crate::default() });
        }
        let edges = case.a(1) as u64;
        for i in 0..n {
            for j in i + 1..6 {
                if (j < n || j == 5 && case.a(2) & 1 == 1) && edges >> (i * 5 + j - 1) & 1 == 1 {
                    w.crates[i].deps.push(j);
                }
            }
        }
        // What the procedural macro itself is built from.
        if case.a(2) & 2 == 2 && n > 1 {
            w.crates[5].deps.push(n - 1);
            for i in 0..n {
                if w.crates[i].deps.contains(&5) && i >= n - 1 {
                    w.crates[i].deps.retain(|&d| d != 5);
                }
            }
        }
        w.same_names = case.a(3) & 1 == 1;
        let tool = format!("{base}/bin/{TOOL}");
        if fs::hard_link(bins().join(TOOL), &tool).is_err() {
            fs::copy(bins().join(TOOL), &tool).unwrap();
        }
        let mut s = Sim { base, w, c: Config::default(), out: 0, target: 0, generator: 0, flags: 0, runs: 0 };
        s.stdlib();
        s
    }
    fn stdlib(&mut self) {
        let d = self.w.libdir(&self.base);
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        for (f, t) in self.w.stdlib() {
            let p = format!("{d}/{f}");
            fs::write(&p, t).unwrap();
            self.w.clock += 1_000_007;
            touch(&p, self.w.clock);
        }
    }
    fn config(&mut self) {
        let all: Vec<String> = (0..4).map(|i| format!("f{i}")).collect();
        self.c.features = match self.flags {
            0 => vec!["f0".into()],
            1 => all,
            2 => vec![],
            m => {
                let mut v: Vec<String> = (0..4).filter(|i| (m - 2) >> i & 1 == 1).map(|i| format!("f{i}")).collect();
                if !v.contains(&"f0".to_string()) {
                    v.insert(0, "f0".into());
                }
                v
            }
        };
    }
    fn target_dir(&self) -> String {
        [format!("{}/ws/my-root/target", self.base), format!("{}/other-target", self.base)][self.target].clone()
    }
    fn profile_dir(&self, target: &str) -> String {
        let p = if self.c.release { "release" } else { "debug" };
        if self.c.triple {
            format!("{target}/{TRIPLE}/{p}")
        } else {
            format!("{target}/{p}")
        }
    }
    fn include(&self, target: &str, clean: bool) -> String {
        if clean || self.out == 0 {
            format!("{}/include/crubit", self.profile_dir(target))
        } else {
            format!("{}/out{}/include/crubit", self.base, self.out)
        }
    }
    fn run(&mut self, clean: bool, order: u64, plan: &[(u64, String)], simio: &str) -> (End, bool) {
        let b = &self.base;
        let mut w = self.w.clone();
        w.order = order;
        w.plan = plan.to_vec();
        if clean {
            // Its own clock.
            let _ = fs::rename(format!("{b}/clock"), format!("{b}/clock.kept"));
        } else {
            fs::write(format!("{b}/clock"), self.w.clock.to_string()).unwrap();
        }
        fs::write(format!("{b}/world"), w.text()).unwrap();
        for f in ["count", "faulted", "io"] {
            let _ = fs::remove_file(format!("{b}/{f}"));
        }
        let target = if clean { format!("{b}/clean") } else { self.target_dir() };
        let mut cmd = Command::new(format!("{b}/bin/{TOOL}"));
        cmd.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", b).env("CARGO", bins().join("fakecargo")).env("SIM_DIR", b).env("SIM_GENERATOR", self.generator.to_string());
        if !simio.is_empty() {
            let lib = bins().parent().unwrap().join("simio.so");
            cmd.env("LD_PRELOAD", lib).env("SIMIO", format!("prog={TOOL};root={b};out={b}/io;{simio}"));
        }
        cmd.arg("cpp_api_from_rust");
        if clean || self.target > 0 {
            cmd.arg(format!("--target-dir={target}"));
        }
        if !clean && self.out > 0 {
            cmd.arg(format!("--out-dir={b}/out{}", self.out));
        }
        match self.flags {
            0 => {}
            1 => {
                cmd.arg("--all-features");
            }
            2 => {
                cmd.arg("--no-default-features");
            }
            _ => {
                let f: Vec<String> = self.c.features.iter().filter(|f| *f != "f0").cloned().collect();
                if !f.is_empty() {
                    cmd.arg(format!("--features={}", f.join(",")));
                }
            }
        }
        if self.c.release || self.c.triple {
            cmd.arg("--");
            if self.c.release {
                cmd.arg("--release");
            }
            if self.c.triple {
                cmd.arg(format!("--target={TRIPLE}"));
            }
        }
        let o = cmd.current_dir(format!("{b}/ws/my-root")).stdin(Stdio::null()).output().unwrap();
        if clean {
            let _ = fs::rename(format!("{b}/clock.kept"), format!("{b}/clock"));
        } else if let Some(c) = fs::read_to_string(format!("{b}/clock")).ok().and_then(|t| t.trim().parse().ok()) {
            self.w.clock = c;
        }
        let end = match (o.status.code(), o.status.signal()) {
            (Some(0), _) => End::Ok,
            (Some(_), _) => End::Failed,
            (None, _) => End::Killed,
        };
        if std::env::var_os("SIM_SHOW").is_some() {
            eprintln!("--- {end:?} clean={clean}\n{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        }
        let io = fs::read_to_string(format!("{b}/io")).unwrap_or_default();
        let mut faulted = false;
        for l in io.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() > 1 && f[1] != "ops" {
                simkit::fault(&format!("io-{}-{}", f[1], f.get(2).unwrap_or(&"")));
                faulted = true;
            }
        }
        if let Ok(t) = fs::read_to_string(format!("{b}/faulted")) {
            let f: Vec<&str> = t.split(' ').collect();
            simkit::fault(&format!("cargo{}-{}", f[0], f[1]));
            faulted = true;
        }
        (end, faulted)
    }
    /// The crates that must have a header, with the metadata it must come from.
    fn wanted(&self) -> Vec<(String, String)> {
        let mut seen = vec![0];
        let mut i = 0;
        while i < seen.len() {
            for &d in &self.w.crates[seen[i]].deps {
                if !self.w.crates[d].proc_macro && !seen.contains(&d) {
                    seen.push(d);
                }
            }
            i += 1;
        }
        let us = units(&self.w, &self.c);
        seen.iter()
            .map(|&k| {
                let u = us.iter().find(|u| u.krate == k && !u.host).expect("a target unit");
                (self.w.crates[k].lib(), u.rmeta.clone())
            })
            .collect()
    }
    fn outputs(&self, target: &str, clean: bool) -> Vec<(String, Option<String>)> {
        let inc = self.include(target, clean);
        let mut names: Vec<String> = self.wanted().into_iter().map(|w| w.0).collect();
        names.extend(["core", "alloc", "std", "proc_macro"].map(String::from));
        let mut v: Vec<_> = names.iter().map(|n| (format!("{n}.h"), fs::read_to_string(format!("{inc}/{n}.h")).ok())).collect();
        v.push(("libmy-root.a".into(), fs::read_to_string(format!("{}/libmy-root.a", self.profile_dir(target))).ok()));
        v
    }
    /// After a success: what the sources say, and what a clean build leaves.
    fn verify(&mut self, against_clean: bool, order: u64) {
        let got = self.outputs(&self.target_dir(), false);
        let us = units(&self.w, &self.c);
        let archive = got.last().unwrap().1.clone().unwrap_or_default();
        for (lib, rmeta) in self.wanted() {
            let f = format!("{lib}.h");
            let text = got.iter().find(|g| g.0 == f).unwrap().1.clone();
            let Some(text) = text else {
                return simkit::fail("header-missing", &format!("no header of {lib} after a successful run"));
            };
            check!(text.ends_with(&format!("// end of {lib}\n")), "header-truncated", "the header of {lib} is cut off");
            let want: String = rmeta.lines().map(|l| format!("// {l}\n")).collect();
            check!(text.contains(&want), "header-stale", "the header of {lib} is not that of its current sources, features and profile");
            check!(text.contains(&format!("// generator {}\n", self.generator)), "header-old-generator", "the header of {lib} was made by another generator");
            // The generator was told of what the crate depends on, and where the headers of that are.
            let k = self.w.crates.iter().position(|c| c.lib() == lib).unwrap();
            for &d in &self.w.crates[k].deps {
                let c = &self.w.crates[d];
                let Some(u) = us.iter().find(|u| u.krate == d && !u.host).filter(|_| !c.proc_macro) else { continue };
                let id = u.rmeta.lines().find(|l| l.starts_with("id ")).unwrap_or("");
                check!(text.contains(&format!("// with {} {id}\n", c.lib())), "dependency-not-given", "the generator was not given {} for {lib}", c.lib());
                check!(text.lines().any(|l| l.starts_with(&format!("// header {}=", c.lib())) && l.ends_with(&format!("{}.h", c.lib()))), "dependency-header-not-given", "the generator was not told of the header of {} for {lib}", c.lib());
            }
            for l in ["core", "alloc", "std", "proc_macro"] {
                check!(text.contains(&format!("// with {l} stdlib {l} {} end\n", self.w.toolchain_id())), "dependency-not-given", "the generator was not given {l} for {lib}");
                check!(text.contains(&format!("// namespace {l}=rs::{l}\n")), "namespace-not-given", "the generator was not told of the namespace of {l} for {lib}");
            }
            let glue = format!("// Glue of {lib}\n// generator {}\n{want}", self.generator);
            check!(archive.contains(&glue), "archive-stale", "the static library has not the current glue of {lib}");
            let c = &self.w.crates[k];
            check!(archive.lines().any(|l| l == format!("links {} {} {}", c.name, c.version, c.rev)), "archive-without-crate", "the static library does not have the current {}", c.name);
        }
        for l in ["core", "alloc", "std", "proc_macro"] {
            check!(archive.contains(&format!("// stdlib {l} {}\n", self.w.toolchain_id())), "archive-stale", "the static library has not the current glue of {l}");
        }
        let flavour = format!("toolchain {}\nprofile {}\n", self.w.toolchain_id(), if self.c.release { "release" } else { "dev" });
        check!(archive.starts_with(&flavour), "archive-of-another-profile", "the static library was not built for this profile and toolchain");
        for l in ["core", "alloc", "std", "proc_macro"] {
            let text = got.iter().find(|g| g.0 == format!("{l}.h")).unwrap().1.clone().unwrap_or_default();
            check!(text.ends_with(&format!("// end of {l}\n")), "stdlib-header-truncated", "the header of {l} is missing or cut off");
            check!(text.contains(&format!("// stdlib {l} {}\n", self.w.toolchain_id())), "stdlib-header-stale", "the header of {l} belongs to another toolchain");
            check!(text.contains(&format!("// namespace self=rs::{l}\n")) && text.contains(&format!("// namespace {l}=rs::{l}\n")), "namespace-not-given", "the generator was not told of the namespace of {l} for itself");
        }
        check!(got.last().unwrap().1.as_deref().is_some_and(|t| t.ends_with("end of archive\n")), "archive-truncated", "the static library is missing or cut off");
        if against_clean && !simkit::failed() {
            let (end, _) = self.clean(order);
            check!(end == End::Ok, "succeeds-where-clean-fails", "a clean build of the same state fails");
            let want = self.outputs(&format!("{}/clean", self.base), true);
            for (g, w) in got.iter().zip(&want) {
                check!(g.1 == w.1, "differs-from-clean", "{} differs from a clean build's", g.0);
            }
        }
    }
    /// Whether nothing in the sources keeps them from being built and bound.
    fn sound(&self) -> bool {
        self.w.reachable().iter().all(|&k| self.w.crates[k].broken == 0)
    }
    fn clean(&mut self, order: u64) -> (End, bool) {
        let _ = fs::remove_dir_all(format!("{}/clean", self.base));
        self.run(true, order, &[], "")
    }
    fn pick(&self, n: &Node, i: usize) -> usize {
        let r = self.w.reachable();
        r[n.ix(i, r.len())]
    }
    fn remove(&self, what: usize, n: &Node) {
        let t = self.target_dir();
        let k = self.pick(n, 1);
        let lib = self.w.crates[k].lib();
        let deps = format!("{}/deps", self.profile_dir(&t));
        let inter = |ext: &str| {
            if let Ok(d) = fs::read_dir(&deps) {
                for e in d.flatten() {
                    let f = e.file_name().to_string_lossy().to_string();
                    if f.ends_with(ext) && f.contains(&lib) && e.path().is_file() {
                        let _ = fs::remove_file(e.path());
                    }
                }
            }
        };
        match what {
            0 => drop(fs::remove_file(format!("{}/{lib}.h", self.include(&t, false)))),
            1 => drop(fs::remove_dir_all(self.include(&t, false))),
            2 => drop(fs::remove_file(format!("{}/libmy-root.a", self.profile_dir(&t)))),
            3 => inter(".h"),
            4 => inter(".rs"),
            5 => drop(fs::remove_dir_all(&deps)),
            6 => drop(fs::remove_dir_all(&t)),
            7 => drop(fs::remove_file(format!("{}/core.h", self.include(&t, false)))),
            _ => drop(fs::remove_file(format!("{deps}/libcore.rs"))),
        }
    }
}

fn touch(p: &str, clock: i64) {
    let (s, ns) = (clock.div_euclid(1_000_000_000), clock.rem_euclid(1_000_000_000));
    let c = format!("{p}\0");
    unsafe {
        utimensat(-100, c.as_ptr().cast(), &[s, ns, s, ns], 0);
    }
}

const IO: [&str; 10] = ["kill", "torn", "after", "eio", "enospc", "eacces", "short", "eintr", "nosys", "full"];
const CARGO: [&str; 8] = ["start:fail", "half:fail", "end:fail", "half:die", "end:cut", "half:orphan", "done:orphan", "start:die"];

fn run(case: &Node) {
    let mut s = Sim::new(case);
    s.config();
    let mut last = End::Failed;
    let mut clean_ok = None;
    for op in &case.kids {
        simkit::step();
        let k = s.pick(op, 0);
        ev!("{} {:?}", op.op, op.args);
        let mut ran = false;
        match op.op.as_str() {
            "edit" => s.w.crates[k].rev += 1,
            "bump" => s.w.crates[k].version += 1,
            "break" => {
                s.w.crates[k].broken = op.ix(1, 4) as u64;
                s.w.crates[k].rev += 1;
            }
            "edge" => {
                let a = op.ix(0, 4);
                let b = a + 1 + op.ix(1, 5 - a - 1);
                if let Some(i) = s.w.crates[a].deps.iter().position(|&d| d == b) {
                    s.w.crates[a].deps.remove(i);
                } else if !(s.w.crates[a].deps.contains(&5) && b == 5) {
                    s.w.crates[a].deps.push(b);
                }
                s.w.crates[a].rev += 1;
                // No cycle through the macros.
                let m = s.w.crates[5].deps.clone();
                for d in m {
                    let mut seen = vec![d];
                    let mut i = 0;
                    while i < seen.len() {
                        seen.extend(s.w.crates[seen[i]].deps.iter().filter(|x| !seen.contains(x)).copied().collect::<Vec<_>>());
                        i += 1;
                    }
                    if seen.contains(&5) {
                        s.w.crates[5].deps.clear();
                    }
                }
            }
            "toolchain" => {
                if op.a(0) % 2 == 0 {
                    s.w.toolchain = op.ix(1, 3) as u64;
                } else {
                    s.w.update += 1;
                }
                s.stdlib();
            }
            "features" => {
                s.flags = op.ix(0, 12) as u64;
                s.config();
            }
            "profile" => s.c.release = !s.c.release,
            "triple" => s.c.triple = !s.c.triple,
            "out" => s.out = op.ix(0, 3),
            "target" => s.target = op.ix(0, 2),
            "remove" => s.remove(op.ix(0, 9), op),
            "generator" => {
                s.generator += 1;
                let tool = format!("{}/bin/{TOOL}", s.base);
                let _ = fs::remove_file(&tool);
                fs::copy(bins().join(TOOL), &tool).unwrap();
                s.w.clock += 5_000_000_000;
                touch(&tool, s.w.clock);
            }
            "clock" => {
                simkit::fault("clock-jump");
                s.w.clock += op.a(0) * 3_600_000_000_000 + 17;
            }
            "run" => {
                ran = true;
                let order = op.a(0) as u64;
                let (mut plan, mut io) = (vec![], String::new());
                for f in &op.kids {
                    match f.op.as_str() {
                        "io" => io.push_str(&format!("fault={}:{};", 1 + f.ix(0, 200), IO[f.ix(1, IO.len())])),
                        "cargo" => plan.push((1 + f.ix(0, 4) as u64, CARGO[f.ix(1, CARGO.len())].to_string())),
                        _ => {}
                    }
                }
                let (end, faulted) = s.run(false, order, &plan, &io);
                ev!("{end:?}");
                s.runs += 1;
                if end == End::Ok {
                    if faulted {
                        simkit::probe("success-despite-fault");
                    }
                    if last != End::Ok && s.runs > 1 {
                        simkit::probe("success-after-failure");
                    }
                    s.verify(op.a(1) % 3 == 0, order);
                } else if !faulted {
                    // Nothing went wrong: it fails only if the sources make every build fail.
                    if clean_ok.is_none() {
                        clean_ok = Some(s.clean(order).0 == End::Ok);
                    }
                    check!(!s.sound(), "sound-sources-fail", "a run without faults fails though nothing is wrong with the sources");
                    check!(clean_ok == Some(false), "fails-without-reason", "a run without faults fails where a clean build succeeds");
                    simkit::probe("failing-sources");
                }
                if end == End::Killed {
                    simkit::probe("killed");
                    check!(faulted, "killed-without-reason", "the run crashed");
                }
                last = end;
            }
            o => panic!("unknown op {o}"),
        }
        if !ran {
            clean_ok = None;
        }
        if simkit::failed() {
            break;
        }
    }
    // Once faults stop, the next run recovers.
    if !simkit::failed() {
        let (end, _) = s.run(false, 1, &[], "");
        ev!("last {end:?}");
        if end == End::Ok {
            s.verify(true, 1);
        } else {
            let (c, _) = s.clean(1);
            check!(!s.sound(), "sound-sources-fail", "a run without faults fails though nothing is wrong with the sources");
            check!(c != End::Ok, "no-recovery", "a run without faults fails ({end:?}) where a clean build succeeds");
        }
    }
    if s.runs > 1 {
        simkit::nontrivial();
    }
    simkit::reached(simkit::hash_bytes(3, s.w.text().as_bytes()) ^ simkit::mix(s.runs));
    let _ = fs::remove_dir_all(&s.base);
}

fn gen_run(r: &mut Rng, faults: bool) -> Node {
    let mut k = vec![];
    if faults {
        for _ in 0..r.range(1, 2) {
            if r.chance(2, 3) {
                let hi = *r.pick(&[14, 60, 110]);
                let at = r.range(0, hi);
                let kind = r.weighted(&[4, 4, 3, 1, 1, 1, 2, 1, 1, 1]) as i64;
                k.push(node("io", &[at, kind]));
            } else {
                k.push(node("cargo", &[r.weighted(&[1, 4, 1, 3]) as i64, r.range(0, CARGO.len() as i64 - 1)]));
            }
        }
    }
    tree("run", &[r.range(0, 1000), r.range(0, 5)], k)
}

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut ops = vec![];
    let switchy = r.chance(1, 3);
    if r.chance(5, 6) {
        let f = r.chance(1, 4);
        ops.push(gen_run(r, f));
    }
    for _ in 0..r.range(1, 4) {
        for _ in 0..r.weighted(&[1, 5, 3, 1]) {
            let k = r.range(0, 9);
            ops.push(match r.weighted(&if switchy { [2, 1, 0, 1, 1, 5, 3, 2, 3, 2, 2, 1, 1] } else { [8, 2, 2, 3, 3, 2, 1, 1, 1, 1, 5, 1, 1] }) {
                0 => node("edit", &[k]),
                1 => node("bump", &[k]),
                2 => node("break", &[k, r.weighted(&[2, 1, 1, 2]) as i64]),
                3 => node("edge", &[r.range(0, 3), r.range(0, 9)]),
                4 => node("toolchain", &[r.range(0, 1), r.range(0, 2)]),
                5 => {
                    let f = if r.chance(1, 2) { r.range(0, 2) } else { r.range(3, 11) };
                    node("features", &[f])
                }
                6 => node("profile", &[]),
                7 => node("triple", &[]),
                8 => node("out", &[r.range(0, 2)]),
                9 => node("target", &[r.range(0, 1)]),
                10 => node("remove", &[r.range(0, 8), k]),
                11 => node("generator", &[]),
                _ => node("clock", &[r.range(-20, 20)]),
            });
        }
        let f = r.chance(1, 2);
        ops.push(gen_run(r, f));
    }
    tree("cargo", &[r.range(0, 4), r.range(0, 0x1ffffff) | r.range(0, 0x1ffffff), r.weighted(&[3, 2, 1, 2]) as i64, r.range(0, 1)], ops)
}

fn main() {
    // What killed workers left behind.
    if let Ok(d) = fs::read_dir("/tmp") {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(p) = n.strip_prefix("verif-c14.").and_then(|p| p.parse::<i32>().ok()) {
                if unsafe { kill(p, 0) } != 0 && Path::new(&format!("/tmp/{n}")).is_dir() {
                    let _ = fs::remove_dir_all(format!("/tmp/{n}"));
                }
            }
        }
    }
    simkit::main(&Check {
        quick_cases: 2_200,
        hang_secs: 60,
        rule: "a case is a history of edits, configuration switches, deletions and runs of the cargo subcommand, with the file operations of the tool and every cargo invocation failing, cut short or killed at chosen points; non-trivial: at least two runs; distinct by the whole history",
        states: "distinct (workspace, toolchain, runs) reached at the end of a history",
        real: &["cc_bindings_from_rs/cargo-cpp_api_from_rust.rs as a process", "cc_bindings_from_rs/toposort", "common/arc_anyhow.rs", "the file system"],
        stubs: &["cargo and rustc: a stand-in with cargo's rules for freshness, file names and messages", "the bindings generator: outputs are a function of the metadata it is given and of its flags", "the generator's command line: the flags that are used"],
        assumptions: &["one run at a time in a target directory", "a crash loses nothing that was written (no power loss)"],
        expected_probes: &["success-despite-fault", "success-after-failure", "failing-sources", "killed"],
        ..Check::new("C14", generate, run)
    })
}
