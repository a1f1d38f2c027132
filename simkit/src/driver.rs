//! Search driver: worker processes, replay, minimisation, determinism proof, evidence.

use crate::case::{minimise, Node};
use crate::rng::{hash_bytes, Rng};
use crate::state;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    /// Builds case `idx` from its own generator.
    pub generate: fn(&mut Rng, u64) -> Node,
    /// Executes a case; reports through `simkit::{fail, fault, probe, ev, ...}`.
    pub run: fn(&Node),
    /// Hand-written cases that run first.
    pub corpus: &'static [&'static str],
    pub quick_cases: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// A single case may take this long before it counts as a hang.
    pub hang_secs: u64,
    /// Worker processes (0: one per core).
    pub workers: usize,
    pub rule: &'static str,
    pub states: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Probes that must fire in a full quick run; reported when they do not.
    pub expected_probes: &'static [&'static str],
}

impl Check {
    pub const fn new(property: &'static str, generate: fn(&mut Rng, u64) -> Node, run: fn(&Node)) -> Check {
        Check {
            property,
            level: "exploration",
            generate,
            run,
            corpus: &[],
            quick_cases: 40_000,
            quick_secs: 90,
            thorough_secs: 900,
            hang_secs: 60,
            workers: 0,
            rule: "",
            states: "",
            real: &[],
            stubs: &[],
            assumptions: &[],
            expected_probes: &[],
        }
    }
}

#[derive(Clone, Debug)]
struct Viol {
    class: String,
    detail: String,
}

struct Outcome {
    viol: Option<Viol>,
    hash: u64,
    nontrivial: bool,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _p = state::pause();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        state::set_last_panic(format!("{m} at {loc}"));
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("panic: {m} at {loc}");
        }
    }));
}

fn run_case(c: &Check, case: &Node, verbose: bool) -> Outcome {
    state::reset_case(verbose);
    crate::track::obj_reset();
    let r = crate::track::catch(|| (c.run)(case));
    crate::track::alloc_end(false);
    if let Err(e) = r {
        let d = match e {
            crate::track::Caught::Injected(k) => format!("injected panic {k} escaped"),
            crate::track::Caught::Other(m) => format!("{m} ({})", state::last_panic()),
        };
        state::fail("unexpected-panic", &d);
    }
    state::with(|s| Outcome {
        viol: s.violation.clone().map(|(class, detail)| Viol { class, detail }),
        hash: s.hash,
        nontrivial: s.nontrivial,
    })
}

fn case_for(c: &Check, seed: u64, idx: u64) -> Node {
    let n = c.corpus.len() as u64;
    if idx < n {
        return Node::parse(c.corpus[idx as usize]).expect("corpus case");
    }
    (c.generate)(&mut Rng::for_case(seed, c.property, idx), idx)
}

// ------------------------------------------------------------------ known findings

struct Known {
    class: String,
    text: String,
    note: String,
}

fn known_for(property: &str) -> Vec<Known> {
    // known: property=<id> class=<class> match=<substring of detail, spaces as _> -- <note>
    let mut out = vec![];
    for l in fs::read_to_string("known_findings.txt").unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let (head, note) = rest.split_once(" -- ").unwrap_or((rest, ""));
        let kv: BTreeMap<&str, &str> = head.split_whitespace().filter_map(|t| t.split_once('=')).collect();
        if kv.get("property") == Some(&property) {
            out.push(Known {
                class: kv.get("class").unwrap_or(&"?").to_string(),
                text: kv.get("match").unwrap_or(&"\u{0}").replace('_', " "),
                note: note.to_string(),
            });
        }
    }
    out
}

fn is_known(k: &[Known], v: &Viol) -> Option<usize> {
    k.iter().position(|k| k.class == v.class && v.detail.replace('_', " ").contains(&k.text))
}

// ------------------------------------------------------------------ worker

fn worker(c: &Check, a: &[String]) -> ! {
    let seed: u64 = a[0].parse().unwrap();
    let w: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let max: u64 = a[3].parse().unwrap();
    let secs: u64 = a[4].parse().unwrap();
    let out = PathBuf::from(&a[5]);
    let from: u64 = a[6].parse().unwrap();
    let every: u64 = a[7].parse().unwrap(); // >1: only every k-th case (determinism sample)
    let known = known_for(c.property);
    let prog = fs::File::create(out.with_extension("prog")).unwrap();
    use std::os::unix::fs::FileExt;
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut nontriv: HashSet<u64> = HashSet::new();
    let mut viol = None;
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut hashes = String::new();
    let mut idx = from + w;
    while idx < max && t0.elapsed().as_secs() < secs {
        if every <= 1 || idx % every == 0 {
            prog.write_all_at(&idx.to_le_bytes(), 0).unwrap();
            let case = case_for(c, seed, idx);
            let o = run_case(c, &case, false);
            evals += 1;
            if idx % 64 == 0 {
                hashes.push_str(&format!("H {idx} {}\n", o.hash));
            }
            if o.nontrivial && nontriv.len() < 3_000_000 {
                nontriv.insert(hash_bytes(1, case.to_text().as_bytes()));
            }
            if let Some(v) = o.viol {
                if let Some(k) = is_known(&known, &v) {
                    *known_hits.entry(k).or_insert(0) += 1;
                } else {
                    viol = Some((idx, v));
                    break;
                }
            }
        }
        idx += n;
    }
    let mut f = std::io::BufWriter::new(fs::File::create(&out).unwrap());
    let _ = writeln!(f, "E {evals}");
    state::with(|s| {
        let _ = writeln!(f, "T {} {}", s.total_steps, s.total_events);
        for (k, v) in &s.faults {
            let _ = writeln!(f, "F {k} {v}");
        }
        for (k, v) in &s.probes {
            let _ = writeln!(f, "P {k} {v}");
        }
        for h in &s.states {
            let _ = writeln!(f, "S {h:x}");
        }
    });
    for h in &nontriv {
        let _ = writeln!(f, "N {h:x}");
    }
    for (k, v) in &known_hits {
        let _ = writeln!(f, "K {k} {v}");
    }
    let _ = f.write_all(hashes.as_bytes());
    if let Some((i, v)) = viol {
        let _ = writeln!(f, "V {i} {}\t{}", v.class, v.detail.replace('\n', " "));
    }
    let _ = writeln!(f, "END");
    let _ = f.flush();
    std::process::exit(0)
}

// ------------------------------------------------------------------ one case in a process

/// Runs a replay file in this process and prints the outcome for the parent.
fn one(c: &Check, file: &str, verbose: bool) -> ! {
    let text = fs::read_to_string(file).expect("replay file");
    let case = Node::parse(&text).expect("replay syntax");
    let o = if case.op == "worker-prefix" {
        // A violation that needs the earlier cases of the same process.
        let (seed, w, n, upto) = (case.a(0) as u64, case.a(1) as u64, case.a(2) as u64, case.a(3) as u64);
        let mut i = w;
        loop {
            let o = run_case(c, &case_for(c, seed, i), verbose);
            if o.viol.is_some() || i >= upto {
                break o;
            }
            i += n;
        }
    } else {
        run_case(c, &case, verbose)
    };
    if verbose {
        state::with(|s| {
            for l in s.verbose.iter().flatten() {
                println!("  {l}");
            }
        });
    }
    match o.viol {
        Some(v) => println!("ONE V {} {}\t{}", o.hash, v.class, v.detail.replace('\n', " ")),
        None => println!("ONE OK {}", o.hash),
    }
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn crash_class(st: std::process::ExitStatus) -> String {
    match st.signal() {
        Some(6) => "crash-SIGABRT".into(),
        Some(11) => "crash-SIGSEGV".into(),
        Some(s) => format!("crash-signal-{s}"),
        None => format!("exit-{}", st.code().unwrap_or(-1)),
    }
}

/// Outcome of a case in a fresh process: (violation, log hash).
fn spawn_one(exe: &Path, file: &Path, hang: u64, verbose: bool) -> (Option<Viol>, u64, String) {
    let outp = file.with_extension("one.out");
    let mut ch = Command::new(exe)
        .arg(if verbose { "one-verbose" } else { "one" })
        .arg(file)
        .stdin(Stdio::null())
        .stdout(fs::File::create(&outp).unwrap())
        .stderr(fs::File::create(file.with_extension("one.err")).unwrap())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut nap = 1u64;
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(st) => break Some(st),
            None if t0.elapsed().as_secs() > hang => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => {
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            }
        }
    };
    let text = String::from_utf8_lossy(&fs::read(&outp).unwrap_or_default()).into_owned();
    let err = fs::read_to_string(file.with_extension("one.err")).unwrap_or_default();
    let _ = fs::remove_file(&outp);
    let _ = fs::remove_file(file.with_extension("one.err"));
    let Some(st) = st else {
        return (Some(Viol { class: "hang".into(), detail: format!("no end within {hang} s") }), 0, text);
    };
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("ONE V ") {
            let (h, r) = r.split_once(' ').unwrap_or(("0", r));
            let (c, d) = r.split_once('\t').unwrap_or((r, ""));
            return (Some(Viol { class: c.into(), detail: d.into() }), h.parse().unwrap_or(0), text);
        }
        if let Some(h) = l.strip_prefix("ONE OK ") {
            return (None, h.parse().unwrap_or(0), text);
        }
    }
    let why = err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
    (Some(Viol { class: crash_class(st), detail: format!("process ended with {st} {why}") }), 0, text)
}

// ------------------------------------------------------------------ parent

#[derive(Default)]
struct Merged {
    evals: u64,
    steps: u64,
    events: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: HashSet<String>,
    nontriv: HashSet<String>,
    known: BTreeMap<usize, u64>,
    hashes: BTreeMap<u64, u64>,
    viols: Vec<(u64, u64, Viol)>, // idx, worker
}

fn parse_worker(m: &mut Merged, w: u64, text: &str) -> bool {
    let mut end = false;
    for l in text.lines() {
        let Some((k, r)) = l.split_once(' ') else {
            end |= l == "END";
            continue;
        };
        match k {
            "E" => m.evals += r.parse::<u64>().unwrap_or(0),
            "T" => {
                let (a, b) = r.split_once(' ').unwrap();
                m.steps += a.parse::<u64>().unwrap();
                m.events += b.parse::<u64>().unwrap();
            }
            "F" | "P" => {
                let (a, b) = r.rsplit_once(' ').unwrap();
                let t = if k == "F" { &mut m.faults } else { &mut m.probes };
                *t.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap();
            }
            "S" => {
                m.states.insert(r.into());
            }
            "N" => {
                m.nontriv.insert(r.into());
            }
            "K" => {
                let (a, b) = r.split_once(' ').unwrap();
                *m.known.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap();
            }
            "H" => {
                let (a, b) = r.split_once(' ').unwrap();
                m.hashes.insert(a.parse().unwrap(), b.parse().unwrap());
            }
            "V" => {
                let (i, r) = r.split_once(' ').unwrap();
                let (c, d) = r.split_once('\t').unwrap_or((r, ""));
                m.viols.push((i.parse().unwrap(), w, Viol { class: c.into(), detail: d.into() }));
            }
            _ => {}
        }
    }
    end
}

struct Batch<'a> {
    exe: &'a Path,
    dir: &'a Path,
    hang: u64,
}

impl Batch<'_> {
    fn run(&self, tag: &str, seed: u64, n: u64, from: u64, max: u64, secs: u64, every: u64) -> Merged {
        struct W {
            id: u64,
            ch: std::process::Child,
            out: PathBuf,
            last: u64,
            since: Instant,
            done: Option<Option<std::process::ExitStatus>>,
        }
        let mut ws: Vec<W> = (0..n)
            .map(|id| {
                let out = self.dir.join(format!("{tag}{id}.out"));
                let _ = fs::remove_file(&out);
                let ch = Command::new(self.exe)
                    .arg("worker")
                    .args([seed, id, n, max, secs].map(|x| x.to_string()))
                    .arg(&out)
                    .args([from, every].map(|x| x.to_string()))
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(fs::File::create(self.dir.join(format!("{tag}{id}.err"))).unwrap())
                    .spawn()
                    .expect("spawn worker");
                W { id, ch, out, last: u64::MAX, since: Instant::now(), done: None }
            })
            .collect();
        loop {
            let mut all = true;
            for w in ws.iter_mut().filter(|w| w.done.is_none()) {
                match w.ch.try_wait().unwrap() {
                    Some(st) => w.done = Some(Some(st)),
                    None => {
                        all = false;
                        let cur = read_prog(&w.out);
                        if cur != w.last {
                            w.last = cur;
                            w.since = Instant::now();
                        } else if w.since.elapsed().as_secs() > self.hang {
                            let _ = w.ch.kill();
                            let _ = w.ch.wait();
                            w.done = Some(None);
                        }
                    }
                }
            }
            if all {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let mut m = Merged::default();
        for w in &ws {
            let text = fs::read_to_string(&w.out).unwrap_or_default();
            let ended = parse_worker(&mut m, w.id, &text);
            if !ended {
                let idx = read_prog(&w.out);
                let v = match w.done.unwrap() {
                    None => Viol { class: "hang".into(), detail: format!("no end within {} s", self.hang) },
                    Some(st) => Viol { class: crash_class(st), detail: format!("worker ended with {st}") },
                };
                if idx == u64::MAX {
                    let e = fs::read_to_string(w.out.with_extension("err")).unwrap_or_default();
                    eprintln!("harness error: worker died before its first case: {e}");
                    std::process::exit(3);
                }
                m.viols.push((idx, w.id, v));
            }
        }
        m.viols.sort_by_key(|v| v.0);
        m
    }
}

fn read_prog(out: &Path) -> u64 {
    fs::read(out.with_extension("prog"))
        .ok()
        .and_then(|b| b.try_into().ok())
        .map(u64::from_le_bytes)
        .unwrap_or(u64::MAX)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}
fn jlist<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(", "))
}

pub fn main(c: &Check) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(c, &args[1..]),
        Some("one") => one(c, &args[1], false),
        Some("one-verbose") => one(c, &args[1], true),
        Some("gen") => {
            println!("{}", case_for(c, seed(), args[1].parse().unwrap()).to_text());
            std::process::exit(0)
        }
        Some("replay") => {
            let exe = std::env::current_exe().unwrap();
            let dir = scratch(c.property);
            let f = dir.join("replay.case");
            fs::copy(&args[1], &f).expect("replay file");
            let (v, h, text) = spawn_one(&exe, &f, c.hang_secs, true);
            print!("{text}");
            let _ = fs::remove_dir_all(&dir);
            match v {
                Some(v) => {
                    println!("log hash {h:016x}; {}: {}", v.class, v.detail);
                    println!("VIOLATION property={} replay={}", c.property, args[1]);
                    std::process::exit(1)
                }
                None => {
                    println!("log hash {h:016x}; no violation");
                    std::process::exit(0)
                }
            }
        }
        Some("soak") => soak(c, args.get(1).and_then(|s| s.parse().ok()).unwrap_or(2000)),
        _ => search(c),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn scratch(p: &str) -> PathBuf {
    let d = PathBuf::from(format!("build/run/{p}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch");
    fs::canonicalize(d).unwrap()
}

/// Determinism proof: many cases, run by 2 different worker counts, all log hashes compared.
fn soak(c: &Check, cases: u64) -> ! {
    let exe = std::env::current_exe().unwrap();
    let dir = scratch(c.property);
    let b = Batch { exe: &exe, dir: &dir, hang: c.hang_secs };
    let a = b.run("a", seed(), 1, 0, cases * 64, 100_000, 64);
    let z = b.run("z", seed(), 5, 0, cases * 64, 100_000, 64);
    let mut bad = 0;
    for (i, h) in &a.hashes {
        if z.hashes.get(i).is_some_and(|g| g != h) {
            println!("case {i}: logs differ");
            bad += 1;
        }
    }
    println!("{}: {} cases compared, {bad} differ, violations {} {}", c.property, a.hashes.len(), a.viols.len(), z.viols.len());
    let _ = fs::remove_dir_all(&dir);
    std::process::exit((bad > 0) as i32)
}

fn search(c: &Check) -> ! {
    let t0 = Instant::now();
    let seed = seed();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
        || std::env::args().any(|a| a == "thorough");
    println!("property {} seed {seed} tier {}", c.property, if thorough { "thorough" } else { "quick" });
    let exe = std::env::current_exe().unwrap();
    let dir = scratch(c.property);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let n = if c.workers == 0 { cores } else { c.workers as u64 };
    let b = Batch { exe: &exe, dir: &dir, hang: c.hang_secs };
    let (max, secs) = if thorough {
        let s = std::env::var("VERIF_THOROUGH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(c.thorough_secs);
        (u64::MAX / 2, s)
    } else {
        (c.quick_cases.max(c.corpus.len() as u64), c.quick_secs)
    };
    let mut m = b.run("w", seed, n, 0, max, secs, 1);

    // Determinism: re-execute a sample in other processes with another worker count.
    let mut compared = 0u64;
    let mut differ = 0u64;
    if m.viols.is_empty() {
        let limit = m.hashes.keys().next_back().copied().unwrap_or(0) + 1;
        let limit = limit.min(if thorough { 400_000 } else { 64 * 400 });
        let d = b.run("d", seed, if n > 2 { 3 } else { 1 }, 0, limit, 30, 64);
        for (i, h) in &d.hashes {
            if let Some(g) = m.hashes.get(i) {
                compared += 1;
                if g != h {
                    differ += 1;
                    println!("WARNING: case {i} gave different event logs in two processes");
                }
            }
        }
        m.viols.extend(d.viols);
    }

    let known = known_for(c.property);
    for k in &known {
        println!("KNOWN-FINDING: property={} {} {}", c.property, k.class, k.note);
    }

    let mut replay_path = String::new();
    if let Some((idx, w, v)) = m.viols.first().cloned() {
        println!("case {idx}: {}: {}", v.class, v.detail);
        let f = dir.join("cand.case");
        let start = Instant::now();
        let budget = Duration::from_secs(if v.class == "hang" { 200 } else { 60 });
        let hang = if v.class == "hang" { c.hang_secs.min(20) } else { c.hang_secs };
        let try_case = |n: &Node| -> Option<Viol> {
            fs::write(&f, n.to_text()).unwrap();
            spawn_one(&exe, &f, hang, false).0
        };
        let case = case_for(c, seed, idx);
        let first = try_case(&case);
        let (min, fin) = match first {
            Some(fv) if is_known(&known, &fv).is_none() => {
                let class = fv.class.clone();
                let mut runs = 0u32;
                let min = minimise(
                    &case,
                    |n| {
                        runs += 1;
                        try_case(n).is_some_and(|x| x.class == class && is_known(&known, &x).is_none())
                    },
                    || start.elapsed() < budget,
                );
                let fin = try_case(&min).unwrap_or(fv);
                println!("minimised {} -> {} nodes in {runs} runs", case.size(), min.size());
                (min, fin)
            }
            _ => {
                println!("not reproduced alone: replaying the worker's history up to it");
                (crate::case::node("worker-prefix", &[seed as i64, w as i64, n as i64, idx as i64]), v.clone())
            }
        };
        let _ = fs::create_dir_all("replays");
        let path = fs::canonicalize("replays").unwrap().join(format!("{}-{seed}-{idx}.case", c.property));
        fs::write(&f, min.to_text()).unwrap();
        let (_, h, log) = spawn_one(&exe, &f, c.hang_secs, true);
        let mut t = format!(
            "; property {} seed {seed} case {idx}\n; {}: {}\n; log hash {h:016x}\n{}\n",
            c.property,
            fin.class,
            fin.detail.replace('\n', " "),
            min.to_text()
        );
        t.push_str("; event log of the minimised run\n");
        for l in log.lines().take(400) {
            t.push_str(&format!("; {}\n", l.replace(['(', ')'], " ")));
        }
        fs::write(&path, t).unwrap();
        replay_path = path.display().to_string();
        println!("{}: {}", fin.class, fin.detail);
    }

    let wall = t0.elapsed().as_secs_f64();
    let search_s = wall.max(0.001);
    let mut missing = vec![];
    for p in c.expected_probes {
        if !m.probes.contains_key(*p) && !m.faults.contains_key(*p) {
            missing.push(p.to_string());
        }
    }
    if !missing.is_empty() {
        println!("note: probes never hit in this run: {}", missing.join(", "));
    }
    let mut samples = vec![];
    for i in [c.corpus.len() as u64 + 1, c.corpus.len() as u64 + 101, c.corpus.len() as u64 + 1001] {
        if i < max {
            samples.push(case_for(c, seed, i).to_line().chars().take(1500).collect::<String>());
        }
    }
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"runs_per_hour\": {}, \"seeds\": {}, \"simulated_steps\": {}, \"logged_events\": {},\n  \"faults_injected\": {},\n  \"conditions_hit\": {},\n  \"conditions_never_hit\": {},\n  \"distinct_states\": {}, \"state_measure\": {},\n  \"determinism\": {{\"cases_rerun_in_another_process\": {compared}, \"logs_that_differ\": {differ}}},\n  \"real_components\": {}, \"stub_components\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(c.property),
        js(if thorough { "thorough" } else { "quick" }),
        seed as i64,
        js(c.level),
        m.evals,
        m.nontriv.len(),
        js(c.rule),
        jlist(&samples),
        (m.evals as f64 * 3600.0 / search_s) as u64,
        m.evals,
        m.steps,
        m.events,
        jmap(&m.faults),
        jmap(&m.probes),
        jlist(&missing),
        m.states.len(),
        js(c.states),
        jlist(c.real),
        jlist(c.stubs),
        jlist(c.assumptions),
        wall,
        !replay_path.is_empty() as u32,
    );
    let _ = fs::create_dir_all("evidence");
    fs::write(format!("evidence/{}.json", c.property), ev).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{} cases, {} distinct non-trivial, {} states, faults {}, {:.1} s",
        m.evals,
        m.nontriv.len(),
        m.states.len(),
        jmap(&m.faults),
        wall
    );
    if !replay_path.is_empty() {
        println!("VIOLATION property={} replay={replay_path}", c.property);
        std::process::exit(1);
    }
    println!("property {} held on everything explored", c.property);
    std::process::exit(0)
}
