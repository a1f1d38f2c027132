//! Stand-in for cargo (and the compilers it runs): metadata, rustc and build over the simulated
//! workspace in SIM_DIR, with cargo's rules for freshness, file names and messages, and with
//! failures where the plan says so.
use check_cargo::{units, Config, Unit, World, TRIPLE};
use std::fs;
use std::io::Write;
use std::path::Path;
use std::process::exit;

extern "C" {
    fn getppid() -> i32;
    fn getpid() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn utimensat(dir: i32, path: *const i8, times: *const [i64; 4], flags: i32) -> i32;
}

struct Ctx {
    base: String,
    w: World,
    fault: String,
    out: String,
}
impl Ctx {
    fn say(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn flush(&mut self) {
        let _ = std::io::stdout().write_all(self.out.as_bytes());
        let _ = std::io::stdout().flush();
        self.out.clear();
    }
    fn gone(&mut self, half: bool) -> ! {
        // Half of what was to be said may have arrived by then.
        let mut l = if half { self.out.len() / 2 } else { self.out.len() };
        while !self.out.is_char_boundary(l) {
            l -= 1;
        }
        self.out.truncate(l);
        self.flush();
        unsafe {
            kill(getpid(), 9);
        }
        exit(9)
    }
    /// What happens at a point of this invocation.
    fn at(&mut self, point: &str) {
        let f = self.fault.clone();
        match f.split_once(':') {
            Some((p, what)) if p == point => match what {
                "fail" => {
                    self.flush();
                    eprintln!("error: simulated failure");
                    exit(101)
                }
                "die" => self.gone(false),
                "cut" => self.gone(true),
                "orphan" => unsafe {
                    kill(getppid(), 9);
                },
                _ => {}
            },
            _ => {}
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o + "\""
}
fn pid(base: &str, w: &World, i: usize) -> String {
    let c = &w.crates[i];
    format!("path+file://{base}/ws/{}#{}@0.{}.0", c.name, c.name, c.version)
}
fn target_json(base: &str, w: &World, i: usize) -> String {
    let c = &w.crates[i];
    let kind = if c.proc_macro { "proc-macro" } else { "lib" };
    format!(
        r#"{{"kind":["{kind}"],"crate_types":["{kind}"],"name":"{}","src_path":"{base}/ws/{}/src/lib.rs","edition":"2021","doc":true,"doctest":true,"test":true}}"#,
        c.lib(),
        c.name
    )
}

fn metadata(x: &mut Ctx) {
    let (base, w) = (x.base.clone(), x.w.clone());
    x.at("start");
    let mut pk = vec![];
    let mut nodes = vec![];
    let mut order = w.reachable();
    let mut rng = simkit::Rng::new(w.order ^ 99);
    for i in (1..order.len()).rev() {
        order.swap(i, rng.usize(i + 1));
    }
    for &i in &order {
        let c = &w.crates[i];
        let id = js(&pid(&base, &w, i));
        pk.push(format!(
            r#"{{"name":"{}","version":"0.{}.0","id":{id},"license":null,"license_file":null,"description":null,"source":null,"dependencies":[],"targets":[{}],"features":{{}},"manifest_path":"{base}/ws/{}/Cargo.toml","metadata":null,"publish":null,"authors":[],"categories":[],"keywords":[],"readme":null,"repository":null,"homepage":null,"documentation":null,"edition":"2021","links":null,"default_run":null,"rust_version":null}}"#,
            c.name,
            c.version,
            target_json(&base, &w, i),
            c.name
        ));
        let ds: Vec<String> = c.deps.iter().map(|&d| js(&pid(&base, &w, d))).collect();
        let full: Vec<String> = c
            .deps
            .iter()
            .map(|&d| format!(r#"{{"name":"{}","pkg":{},"dep_kinds":[{{"kind":null,"target":null}}]}}"#, w.crates[d].lib(), js(&pid(&base, &w, d))))
            .collect();
        nodes.push(format!(r#"{{"id":{id},"dependencies":[{}],"deps":[{}],"features":[]}}"#, ds.join(","), full.join(",")));
    }
    let root = js(&pid(&base, &w, 0));
    let text = format!(
        r#"{{"packages":[{}],"workspace_members":[{root}],"workspace_default_members":[{root}],"resolve":{{"nodes":[{}],"root":{root}}},"target_directory":"{base}/ws/{}/target","version":1,"workspace_root":"{base}/ws/{}","metadata":null}}"#,
        pk.join(","),
        nodes.join(","),
        w.crates[0].name,
        w.crates[0].name
    );
    x.say(&text);
    x.at("end");
    x.flush();
}

fn write_at(path: &str, text: &str, clock: &mut i64) {
    fs::write(path, text).unwrap();
    *clock += 1_000_003;
    let (s, ns) = (*clock / 1_000_000_000, *clock % 1_000_000_000);
    let c = format!("{path}\0");
    unsafe {
        utimensat(-100, c.as_ptr().cast(), &[s, ns, s, ns], 0);
    }
}

fn rustc(x: &mut Ctx, c: &Config, target: &str) {
    let (base, w) = (x.base.clone(), x.w.clone());
    let mut clock = fs::read_to_string(format!("{base}/clock")).ok().and_then(|t| t.trim().parse().ok()).unwrap_or(w.clock);
    let us = units(&w, c);
    x.at("start");
    let mut built: Vec<(usize, bool)> = vec![];
    for (n, u) in us.iter().enumerate() {
        if n == us.len() / 2 {
            fs::write(format!("{base}/clock"), clock.to_string()).unwrap();
            x.at("half");
        }
        let k = &w.crates[u.krate];
        let dir = format!("{target}/{}", u.dir);
        let fp_dir = format!("{dir}/.fingerprint");
        fs::create_dir_all(format!("{dir}/deps")).unwrap();
        fs::create_dir_all(&fp_dir).unwrap();
        let lib = k.lib();
        let main = if k.proc_macro { format!("{dir}/deps/lib{lib}-{}.so", u.hash) } else { format!("{dir}/deps/lib{lib}-{}.rmeta", u.hash) };
        let rlib = if u.krate == 0 { format!("{dir}/lib{lib}.rlib") } else { format!("{dir}/deps/lib{lib}-{}.rlib", u.hash) };
        let fp = format!("{fp_dir}/{lib}-{}", u.hash);
        let stale_dep = u.deps.iter().any(|d| built.contains(d));
        let fresh = !stale_dep && Path::new(&main).exists() && (k.proc_macro || Path::new(&rlib).exists()) && fs::read_to_string(&fp).is_ok_and(|t| t == format!("{}broken {}", u.rmeta, k.broken));
        if !fresh {
            let _ = fs::remove_file(&fp);
            if k.broken == 1 {
                x.say(&format!(
                    r#"{{"reason":"compiler-message","package_id":{},"manifest_path":"{base}/ws/{}/Cargo.toml","target":{},"message":{{"rendered":"error: broken\n","$message_type":"diagnostic","children":[],"code":null,"level":"error","message":"broken","spans":[]}}}}"#,
                    js(&pid(&base, &w, u.krate)),
                    k.name,
                    target_json(&base, &w, u.krate)
                ));
                x.say(r#"{"reason":"build-finished","success":false}"#);
                fs::write(format!("{base}/clock"), clock.to_string()).unwrap();
                x.flush();
                eprintln!("error: could not compile `{}`", k.name);
                exit(101);
            }
            write_at(&main, &u.rmeta, &mut clock);
            if !k.proc_macro {
                write_at(&rlib, &u.rmeta, &mut clock);
            }
            fs::write(&fp, format!("{}broken {}", u.rmeta, k.broken)).unwrap();
            built.push((u.krate, u.host));
        }
        artifact(x, u, c, if k.proc_macro { vec![main] } else { vec![rlib, main] }, fresh);
    }
    fs::write(format!("{base}/clock"), clock.to_string()).unwrap();
    x.say(r#"{"reason":"build-finished","success":true}"#);
    x.at("end");
    x.flush();
    x.at("done");
}

fn artifact(x: &mut Ctx, u: &Unit, c: &Config, files: Vec<String>, fresh: bool) {
    let (base, w) = (x.base.clone(), x.w.clone());
    let opt = if c.release && !u.host { "3" } else { "0" };
    let debug = if c.release || u.host { "0" } else { "2" };
    let f: Vec<String> = files.iter().map(|f| js(f)).collect();
    let feats: Vec<String> = u.features.iter().map(|f| js(f)).collect();
    let line = format!(
        r#"{{"reason":"compiler-artifact","package_id":{},"manifest_path":"{base}/ws/{}/Cargo.toml","target":{},"profile":{{"opt_level":"{opt}","debuginfo":{debug},"debug_assertions":{},"overflow_checks":{},"test":false}},"features":[{}],"filenames":[{}],"executable":null,"fresh":{fresh}}}"#,
        js(&pid(&base, &w, u.krate)),
        w.crates[u.krate].name,
        target_json(&base, &w, u.krate),
        !c.release,
        !c.release,
        feats.join(","),
        f.join(",")
    );
    x.say(&line);
}

fn build(x: &mut Ctx, manifest: &str, release: bool) {
    x.at("start");
    let (base, w) = (x.base.clone(), x.w.clone());
    let Ok(toml) = fs::read_to_string(manifest) else {
        eprintln!("error: manifest path does not exist");
        exit(101)
    };
    let dir = Path::new(manifest).parent().unwrap().display().to_string();
    let value = |key: &str| toml.lines().find_map(|l| l.strip_prefix(&format!("{key} = \"")).and_then(|l| l.strip_suffix('"')).map(|s| s.to_string()));
    let (Some(name), Some(path)) = (value("name"), value("path")) else {
        eprintln!("error: failed to parse manifest");
        exit(101)
    };
    let lib = format!("{dir}/{path}");
    let Ok(text) = fs::read_to_string(&lib) else {
        eprintln!("error: can't find library");
        exit(101)
    };
    x.at("half");
    let mut a = format!("toolchain {}\nprofile {}\n", w.toolchain_id(), if release { "release" } else { "dev" });
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        let Some(p) = l.strip_prefix("#[path = \"").and_then(|l| l.strip_suffix("\"]")) else {
            a.push_str(&format!("lib: {l}\n"));
            continue;
        };
        let decl = lines.next().unwrap_or("");
        match fs::read_to_string(p) {
            Ok(t) if t.contains("// end of ") => a.push_str(&format!("{decl}\n{t}\n")),
            _ => {
                eprintln!("error: couldn't read or parse `{p}`");
                exit(101)
            }
        }
    }
    let mut deps: Vec<String> = vec![];
    for l in toml.lines() {
        let Some((n, rest)) = l.split_once(" = { path = \"") else { continue };
        let p = rest.trim_end_matches("\" }");
        let Some(c) = w.crates.iter().find(|c| p == format!("{base}/ws/{}", c.name)) else {
            eprintln!("error: no such package {n}");
            exit(101)
        };
        if c.broken == 1 {
            eprintln!("error: could not compile {n}");
            exit(101)
        }
        let n = n.trim();
        deps.push(format!("links {n} {} {}", c.version, c.rev));
    }
    deps.sort();
    a.push_str(&deps.join("\n"));
    a.push_str("\nend of archive\n");
    let out = format!("{dir}/target/{}", if release { "release" } else { "debug" });
    fs::create_dir_all(&out).unwrap();
    let file = format!("{out}/lib{}.a", name.replace('-', "_"));
    let fresh = fs::read_to_string(&file).is_ok_and(|t| t == a);
    if !fresh {
        fs::write(&file, &a).unwrap();
    }
    let line = format!(
        r#"{{"reason":"compiler-artifact","package_id":"path+file://{dir}#{name}@0.1.0","manifest_path":"{manifest}","target":{{"kind":["staticlib"],"crate_types":["staticlib"],"name":"{}","src_path":"{lib}","edition":"2021","doc":true,"doctest":false,"test":true}},"profile":{{"opt_level":"0","debuginfo":2,"debug_assertions":true,"overflow_checks":true,"test":false}},"features":[],"filenames":["{file}"],"executable":null,"fresh":{fresh}}}"#,
        name.replace('-', "_")
    );
    x.say(&line);
    x.say(r#"{"reason":"build-finished","success":true}"#);
    x.at("end");
    x.flush();
    x.at("done");
}

fn main() {
    let base = std::env::var("SIM_DIR").unwrap();
    let w = World::parse(&fs::read_to_string(format!("{base}/world")).unwrap());
    let n = fs::read_to_string(format!("{base}/count")).ok().and_then(|t| t.trim().parse::<u64>().ok()).unwrap_or(0) + 1;
    fs::write(format!("{base}/count"), n.to_string()).unwrap();
    let fault = w.plan.iter().find(|p| p.0 == n).map(|p| p.1.clone()).unwrap_or_default();
    if !fault.is_empty() {
        fs::write(format!("{base}/faulted"), format!("{n} {fault}")).unwrap();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut x = Ctx { base: base.clone(), w: w.clone(), fault, out: String::new() };
    let val = |k: &str| args.iter().find_map(|a| a.strip_prefix(&format!("--{k}=")).map(|s| s.to_string()));
    let mut c = Config { release: args.iter().any(|a| a == "--release"), triple: val("target").as_deref() == Some(TRIPLE), features: vec![] };
    if let Some(f) = val("features") {
        c.features = f.split(',').map(|s| s.to_string()).collect();
    }
    if args.iter().any(|a| a == "--all-features") {
        c.features = (0..4).map(|i| format!("f{i}")).collect();
    }
    if !args.iter().any(|a| a == "--no-default-features") && !c.features.contains(&"f0".to_string()) {
        c.features.push("f0".into());
    }
    c.features.sort();
    let target = val("target-dir").unwrap_or(format!("{base}/ws/{}/target", w.crates[0].name));
    match args[0].as_str() {
        "metadata" => metadata(&mut x),
        "rustc" if args.iter().any(|a| a == "target-libdir") => {
            x.at("start");
            x.say(&w.libdir(&base));
            x.at("end");
            x.flush();
            x.at("done");
        }
        "rustc" => rustc(&mut x, &c, &target),
        "build" => {
            let m = args.iter().position(|a| a == "--manifest-path").map(|i| args[i + 1].clone()).unwrap();
            build(&mut x, &m, c.release);
        }
        o => panic!("unknown cargo command {o}"),
    }
}
