//! C12: the generator as a process, over histories of runs into the same outputs with misbehaving
//! files, inputs and formatters. A success means complete outputs.
use check_gen::*;
use simkit::{check, ev, node, tree, Check, Node, Rng};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs;
use std::rc::Rc;

fn base() -> String {
    format!("/tmp/verif-c12.{}", std::process::id())
}

/// What a run with nothing in its way produces, without formatters.
struct Ref {
    h: String,
    rs: String,
    json: String,
}
thread_local! {
    static REFS: RefCell<HashMap<(usize, u64), Option<Rc<Ref>>>> = RefCell::default();
}

fn place_inputs(dir: &str) {
    fs::create_dir_all(dir).unwrap();
    for e in fs::read_dir(target().join("genpool")).unwrap() {
        let e = e.unwrap();
        let to = format!("{dir}/{}", e.file_name().to_string_lossy());
        if to.ends_with(".rs") || to.ends_with(".rmeta") {
            fs::copy(e.path(), &to).unwrap();
        }
    }
}

fn reference(krate: usize, variant: u64, generator: &str) -> Option<Rc<Ref>> {
    if let Some(r) = REFS.with(|r| r.borrow().get(&(krate, variant)).cloned()) {
        return r;
    }
    let b = base() + ".ref";
    let _ = fs::remove_dir_all(&b);
    fs::create_dir_all(format!("{b}/out")).unwrap();
    place_inputs(&format!("{b}/in"));
    let c = Cmd { krate, variant, input: format!("{b}/in"), out: format!("{b}/out"), cpp: true, report: true, ..Cmd::default() };
    let (end, said) = c.run(generator, &b, &[]);
    let r = if c.sound() {
        check!(end == End::Ok, "failed-without-reason", "{} variant {variant} failed: {}", c.name(), plain(&said));
        if end == End::Ok {
            let read = |p: String| fs::read_to_string(p).unwrap_or_default();
            // Sources differ in where they are from.
            let r = Ref { h: read(c.h()).replace(&b, "BASE"), rs: read(c.rs()).replace(&b, "BASE"), json: read(c.json()).replace(&b, "BASE") };
            for n in public_items(c.name()) {
                check!(r.h.contains(&n), "incomplete-header", "{} variant {variant}: nothing about {n}", c.name());
            }
            check!(r.rs.matches('{').count() == r.rs.matches('}').count(), "incomplete-implementation", "{} variant {variant}", c.name());
            let j = r.json.trim();
            check!(j.starts_with('[') && j.ends_with(']'), "incomplete-report", "{} variant {variant}: {j}", c.name());
            if c.krate == 3 {
                check!(r.json.contains("errors"), "incomplete-report", "no errors in the report of a crate full of them");
            }
            Some(Rc::new(r))
        } else {
            None
        }
    } else {
        check!(end != End::Ok, "success-for-bad-input", "{} variant {variant}", c.name());
        None
    };
    let _ = fs::remove_dir_all(&b);
    REFS.with(|m| m.borrow_mut().insert((krate, variant), r.clone()));
    r
}

/// What `turn_off_clang_format` documents: a marker before the guard.
fn marked(h: &str) -> Option<String> {
    let at = h.find("#ifndef").or_else(|| h.find("#pragma once"))?;
    Some(format!("{}// clang-format off\n{}", &h[..at], &h[at..]))
}

struct Tool {
    path: String,
    /// Told to end with a success.
    good: bool,
}

fn set_tool(b: &str, name: &str, n: &Node) -> Tool {
    let path = format!("{b}/bin/{name}");
    for e in ["", ".cfg", ".in", ".out"] {
        let _ = fs::remove_file(format!("{path}{e}"));
    }
    let mut cfg = String::new();
    let mut good = true;
    match n.ix(0, 9) {
        // A well-behaved one, in three ways.
        0 => {}
        1 => cfg = format!("chunk={} hold=1", n.a(1).max(1)),
        2 => cfg = format!("chunk={} err={}", 1 + n.a(1) % 5000, n.a(2) % 200_000),
        // Fails after everything.
        3 => {
            cfg = format!("status={} err={}", 1 + n.a(1) % 255, n.a(2) % 100_000);
            good = false;
        }
        // Dies in the middle.
        4 => {
            cfg = format!("in={} signal={}", n.a(1), [9, 10, 6, 15][n.ix(2, 4)]);
            good = false;
        }
        // Ends before it has read all, with a success.
        5 => cfg = format!("in={}", n.a(1)),
        // Leaves output out, and fails.
        6 => {
            cfg = format!("out={} status={}", n.a(1), 1 + n.a(2) % 255);
            good = false;
        }
        // There is no such tool, or it cannot be run.
        7 => {
            simkit::fault("tool-missing");
            return Tool { path, good: false };
        }
        _ => {
            simkit::fault("tool-not-executable");
            fs::write(&path, "#!/no/such/interpreter\n").unwrap();
            return Tool { path, good: false };
        }
    }
    if n.ix(0, 9) > 2 {
        simkit::fault(["", "", "", "tool-status", "tool-signal", "tool-early-end", "tool-cut-and-status"][n.ix(0, 9)]);
    }
    fs::write(format!("{path}.cfg"), cfg).unwrap();
    if fs::hard_link(bins().join("fakefmt"), &path).is_err() {
        fs::copy(bins().join("fakefmt"), &path).unwrap();
    }
    Tool { path, good }
}

fn run(case: &Node) {
    let b = base();
    let _ = fs::remove_dir_all(&b);
    for d in ["out", "bin", "cfg"] {
        fs::create_dir_all(format!("{b}/{d}")).unwrap();
    }
    place_inputs(&format!("{b}/in"));
    let gen = format!("{b}/bin/{GENERATOR}");
    if fs::hard_link(bins().join(GENERATOR), &gen).is_err() {
        fs::copy(bins().join(GENERATOR), &gen).unwrap();
    }
    for (i, op) in case.kids.iter().enumerate() {
        if simkit::failed() {
            break;
        }
        simkit::step();
        match op.op.as_str() {
            "mess" => mess(&b, op),
            _ => one(&b, &gen, i, op),
        }
    }
    let _ = fs::remove_dir_all(&b);
}

/// What is at an output's path before a run.
fn mess(b: &str, op: &Node) {
    let path = format!("{b}/out/{}", ["api.h", "impl.rs", "touched.cc", "report.json"][op.ix(0, 4)]);
    let _ = fs::remove_file(&path);
    let _ = fs::remove_dir_all(&path);
    match op.ix(1, 6) {
        0 => {}
        1 => fs::write(&path, "stale ".repeat(op.a(2) as usize % 40_000)).unwrap(),
        2 => {
            simkit::fault("output-is-a-directory");
            fs::create_dir(&path).unwrap()
        }
        3 => {
            simkit::fault("output-full");
            std::os::unix::fs::symlink("/dev/full", &path).unwrap()
        }
        4 => {
            simkit::fault("output-dangling");
            std::os::unix::fs::symlink(format!("{b}/no/such/dir/file"), &path).unwrap()
        }
        _ => {
            let t = format!("{b}/elsewhere{}", op.ix(0, 4));
            fs::write(&t, "old content, linked to").unwrap();
            std::os::unix::fs::symlink(&t, &path).unwrap()
        }
    }
    ev!("mess {} {}", op.ix(0, 4), op.ix(1, 6));
}

fn one(b: &str, gen: &str, i: usize, op: &Node) {
    let (krate, variant) = (op.ix(0, CRATES.len()), op.a(1) as u64 % VARIANTS);
    let bits = op.a(2);
    let reference = reference(krate, variant, gen);
    if simkit::failed() {
        return;
    }
    let get = |k: &str| op.kids.iter().find(|n| n.op == k);
    let mut c = Cmd { krate, variant, input: format!("{b}/in"), out: format!("{b}/out"), cpp: bits & 1 > 0, report: bits & 2 > 0, rotate: (bits >> 4) as usize % 7, ..Cmd::default() };
    if bits & 4 > 0 {
        c.argfile = Some(format!("{b}/in/args{i}"));
    }
    let mut hf = None;
    let mut rf = None;
    if let Some(n) = get("hfmt") {
        let t = set_tool(b, "clang-format", n);
        if c.kythe() {
            // The map after the text is about offsets in the text as it was.
            let p = format!("{}.cfg", t.path);
            if let Ok(s) = fs::read_to_string(&p) {
                fs::write(p, s + " tail=0").unwrap();
            }
        }
        c.clang_format = Some(t.path.clone());
        hf = Some(t);
    }
    if let Some(n) = get("rfmt") {
        let t = set_tool(b, "rustfmt", n);
        c.rustfmt = Some(t.path.clone());
        rf = Some(t);
        if bits & 8 > 0 {
            let p = format!("{b}/cfg/rustfmt.toml");
            fs::write(&p, "").unwrap();
            c.rustfmt_config = Some(p);
        }
    }
    // The inputs.
    let mut bad_input = false;
    if let Some(n) = get("input") {
        let p = if c.source() { format!("{b}/in/{}.rs", c.name()) } else { format!("{b}/in/lib{}.rmeta", c.name()) };
        if let Ok(content) = fs::read(&p) {
            let at = n.a(1) as usize % content.len().max(1);
            match n.ix(0, 4) {
                0 => {
                    simkit::fault("input-missing");
                    fs::remove_file(&p).unwrap();
                    bad_input = true;
                }
                // A source file cut short can be a good one.
                1 if !c.source() => {
                    simkit::fault("input-cut");
                    fs::write(&p, &content[..at]).unwrap();
                    bad_input = true;
                }
                2 if !c.source() => {
                    simkit::fault("input-empty");
                    fs::write(&p, "").unwrap();
                    bad_input = true;
                }
                _ => {
                    simkit::fault("input-is-a-directory");
                    fs::remove_file(&p).unwrap();
                    fs::create_dir(&p).unwrap();
                    bad_input = true;
                }
            }
        }
    }
    // Outputs that are almost what they should be, as an interrupted or earlier run leaves them.
    if let (Some(n), Some(r)) = (get("near"), &reference) {
        let (p, want) = [(c.h(), &r.h), (c.rs(), &r.rs), (c.json(), &r.json)][n.ix(0, 3)].clone();
        let mut t = want.replace("BASE", b).into_bytes();
        let at = n.a(2) as usize % t.len().max(1);
        match n.ix(1, 4) {
            0 => t.truncate(at),
            1 => t[at] ^= 1,
            2 => t.extend_from_slice(b"// more\n"),
            _ => t.insert(at, b' '),
        }
        let _ = fs::remove_dir_all(&p);
        let _ = fs::remove_file(&p);
        fs::write(&p, t).unwrap();
        simkit::probe("near-output");
    }
    let mut env = vec![];
    let io = format!("{b}/io");
    let _ = fs::remove_file(&io);
    let plan: Vec<String> = op.kids.iter().filter(|n| n.op == "io").map(|n| format!("fault={}:{}", 1 + n.a(0), KINDS[n.ix(1, KINDS.len())])).collect();
    let mut spec = format!("prog={GENERATOR};root={b}/out;root={b}/in;root={b}/elsewhere;root={b}/cfg;out={io}");
    if bits & 1024 > 0 {
        spec.push_str(";reads=1");
    }
    if !plan.is_empty() {
        spec = format!("{spec};{}", plan.join(";"));
        env.push(("LD_PRELOAD".to_string(), target().join("simio.so").display().to_string()));
        env.push(("SIMIO".to_string(), spec));
    }
    let (end, said) = c.run(gen, b, &env);
    // What went wrong.
    let mut io_hard = false;
    for l in fs::read_to_string(&io).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() > 1 && f[1] != "ops" {
            simkit::fault(&format!("io-{}-{}", f[1], f.get(2).unwrap_or(&"")));
            io_hard |= !["short", "eintr", "nosys"].contains(&f[1]);
        }
    }
    let kind = |p: &str| fs::metadata(p).map(|m| m.is_dir()).unwrap_or(true) || fs::canonicalize(p).is_ok_and(|q| q.starts_with("/dev"));
    let mut outs = vec![c.h(), c.rs()];
    if c.cpp {
        outs.push(c.cc());
    }
    if c.report {
        outs.push(c.json());
    }
    let bad_out = end != End::Ok && outs.iter().any(|p| kind(p) && fs::symlink_metadata(p).is_ok());
    let given = |t: &Option<Tool>, e: &str| t.as_ref().and_then(|t| fs::read(format!("{}{e}", t.path)).ok());
    let tools_ok = |t: &Option<Tool>| t.as_ref().is_none_or(|t| t.good);
    // Which text each tool had to be given.
    let raw_h = reference.as_ref().map(|r| if c.kythe() { r.h.clone() } else { r.h.replacen("// clang-format off\n", "", 1) }.replace("BASE", b));
    let raw_rs = reference.as_ref().map(|r| r.rs.replace("BASE", b));
    let all_read = |t: &Option<Tool>, raw: &Option<String>| match (given(t, ".in"), raw) {
        (Some(i), Some(raw)) => i == raw.as_bytes(),
        (None, _) => true,
        _ => true,
    };
    let excuse = !c.sound() || bad_input || io_hard || bad_out || !tools_ok(&hf) || !tools_ok(&rf) || (!c.kythe() && !all_read(&hf, &raw_h)) || !all_read(&rf, &raw_rs) || c.kythe() && get("hfmt").is_some_and(|n| n.ix(0, 9) == 5);
    ev!("run {} variant {variant} -> {end:?} excuse={excuse}", c.name());
    simkit::reached(simkit::mix((krate as u64) << 32 | variant << 16 | (end == End::Ok) as u64 + 2 * excuse as u64 + ((bits & 3) as u64) << 4 | (hf.is_some() as u64) << 6 | (rf.is_some() as u64) << 7));
    if end == End::Ok {
        simkit::probe("success");
        if excuse {
            simkit::probe("success-despite-fault");
        }
        check!(c.sound(), "success-for-bad-input", "{} cannot be bound", c.name());
        check!(!bad_input, "success-for-unreadable-input", "{} was not readable", c.name());
        check!(tools_ok(&hf), "success-with-failed-tool", "the C++ formatter failed");
        check!(tools_ok(&rf), "success-with-failed-tool", "the Rust formatter failed");
        let Some(r) = reference else { return };
        // A full device keeps nothing, and reads without an end.
        let text = |p: String| {
            if fs::canonicalize(&p)?.starts_with("/dev") {
                return Ok(String::new());
            }
            fs::read(&p).map(|b| String::from_utf8_lossy(&b).into_owned())
        };
        let h = text(c.h());
        let want_h = match (&hf, given(&hf, ".out")) {
            (None, _) => Some(r.h.replace("BASE", b)),
            (Some(_), Some(out)) if !c.kythe() => {
                // The tool was given everything, up to what fits a pipe after it stopped reading.
                let (i, raw) = (given(&hf, ".in").unwrap_or_default(), raw_h.clone().unwrap());
                check!(raw.as_bytes().starts_with(&i), "formatter-input", "the C++ formatter was given something else");
                check!(i.len() + (1 << 16) >= raw.len(), "success-not-fed", "the C++ formatter was given {} of {} bytes", i.len(), raw.len());
                marked(&String::from_utf8_lossy(&out))
            }
            (Some(_), _) if c.kythe() && get("hfmt").is_some_and(|n| n.ix(0, 9) == 5) => None,
            (Some(_), _) if c.kythe() => Some(r.h.replace("BASE", b)),
            _ => {
                check!(false, "success-without-formatter", "the C++ formatter never ended");
                None
            }
        };
        if let Some(w) = want_h {
            compare("header", &h, &w);
        }
        let want_rs = match (&rf, given(&rf, ".out")) {
            (None, _) => Some(r.rs.replace("BASE", b)),
            (Some(_), Some(out)) => {
                let (i, raw) = (given(&rf, ".in").unwrap_or_default(), raw_rs.clone().unwrap());
                check!(raw.as_bytes().starts_with(&i), "formatter-input", "the Rust formatter was given something else");
                check!(i.len() + (1 << 16) >= raw.len(), "success-not-fed", "the Rust formatter was given {} of {} bytes", i.len(), raw.len());
                Some(String::from_utf8_lossy(&out).into_owned())
            }
            _ => {
                check!(false, "success-without-formatter", "the Rust formatter never ended");
                None
            }
        };
        if let Some(w) = want_rs {
            compare("implementation", &text(c.rs()), &w);
        }
        if c.cpp {
            compare("touched file", &text(c.cc()), "");
        }
        if c.report {
            compare("report", &text(c.json()), &r.json.replace("BASE", b));
        }
    } else {
        if matches!(end, End::Killed(_)) {
            simkit::probe("killed");
            check!(io_hard, "crash", "{} variant {variant} was killed by a signal: {end:?} {}", c.name(), plain(&said));
        }
        simkit::probe("failure");
        check!(excuse, "failed-without-reason", "{} variant {variant}: {end:?} {}", c.name(), plain(&said));
        check!(!said.trim().is_empty() || matches!(end, End::Killed(_)), "failed-silently", "{} variant {variant}: {end:?}", c.name());
    }
    simkit::nontrivial();
    // The inputs are whole again for the next run.
    if bad_input {
        for e in [format!("{}.rs", c.name()), format!("lib{}.rmeta", c.name())] {
            let p = format!("{b}/in/{e}");
            let _ = fs::remove_dir_all(&p);
            let _ = fs::remove_file(&p);
            let _ = fs::copy(target().join("genpool").join(&e), &p);
        }
    }
}

fn compare(what: &str, got: &std::io::Result<String>, want: &str) {
    match got {
        Err(e) => check!(false, "missing-output", "success, but the {what} cannot be read: {e}"),
        Ok(g) => {
            if g != want {
                let at = g.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 60).min(s.len())]).into_owned();
                let class = if want.starts_with(g.as_str()) { "truncated-output" } else { "wrong-output" };
                check!(false, class, "the {what} has {} bytes for {}; from {at}: {:?} for {:?}", g.len(), want.len(), cut(g), cut(want));
            }
        }
    }
}

/// Without what differs from run to run: where the worker keeps its files.
fn plain(said: &str) -> String {
    said.replace(&base(), "BASE").lines().map(|l| if l.contains("panicked at") { l.split('(').next().unwrap_or(l).to_string() + l.rsplit(")").next().unwrap_or("") } else { l.to_string() }).collect::<Vec<_>>().join("\n")
}

const KINDS: [&str; 9] = ["enospc", "eio", "full", "torn", "kill", "short", "eintr", "eacces", "emfile"];

fn generate(r: &mut Rng, _: u64) -> Node {
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        if r.chance(2, 5) {
            ops.push(node("mess", &[r.range(0, 3), r.weighted(&[1, 6, 1, 2, 1, 2]) as i64, r.range(0, 1 << 20)]));
        }
        let mut kids = vec![];
        let tool = |r: &mut Rng, name: &str| {
            let k = r.weighted(&[6, 3, 3, 2, 2, 2, 2, 1, 1]) as i64;
            let hi = *r.pick(&[1, 500, 8_000, 70_000, 200_000]);
            node(name, &[k, r.range(0, hi), r.range(0, 1 << 20)])
        };
        if r.chance(1, 2) {
            kids.push(tool(r, "hfmt"));
        }
        if r.chance(1, 2) {
            kids.push(tool(r, "rfmt"));
        }
        if r.chance(1, 12) {
            kids.push(node("input", &[r.range(0, 3), r.range(0, 1 << 20)]));
        }
        if r.chance(1, 4) {
            kids.push(node("near", &[r.range(0, 2), r.range(0, 3), r.range(0, 1 << 20)]));
        }
        let reads = r.chance(1, 4) as i64;
        if r.chance(2, 3) {
            for _ in 0..r.range(1, 2) {
                let hi = if reads == 1 { 24 } else { 8 };
                kids.push(node("io", &[r.range(0, hi), r.range(0, 8)]));
            }
        }
        ops.push(tree("run", &[r.weighted(&[6, 4, 10, 10, 4, 8, 8, 4, 1, 2, 2]) as i64, r.range(0, 6), r.range(0, 1023) | reads << 10], kids));
    }
    tree("cli", &[], ops)
}

fn main() {
    simkit::main(&Check {
        quick_cases: 900,
        hang_secs: 60,
        rule: "a case is a history of runs of the generator into the same outputs, each with an input crate, a set of outputs, formatters and their behaviour, what was at the outputs' paths, and failing file operations; non-trivial: a run ended; distinct by the whole case",
        states: "distinct (crate, variant, outputs, formatters, end)",
        real: &["the cc_bindings_from_rs binary built from the working tree, with the compiler library it drives"],
        stubs: &["clang-format and rustfmt: a stand-in tool that misbehaves as told"],
        assumptions: &["the generator is deterministic (C13), so that a fault-free run gives the expected content"],
        expected_probes: &["success", "failure", "killed", "success-despite-fault", "near-output"],
        ..Check::new("C12", generate, run)
    })
}
