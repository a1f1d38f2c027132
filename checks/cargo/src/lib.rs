//! The simulated workspace and what cargo makes of it, shared by the check and the stand-in cargo.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Crate {
    pub name: String,
    pub version: u64,
    pub rev: u64,
    pub proc_macro: bool,
    /// 0 fine, 1 does not compile, 2 no bindings, 3 no bindings, found after the header was written.
    pub broken: u64,
    pub deps: Vec<usize>,
}
impl Crate {
    /// The library target's name.
    pub fn lib(&self) -> String {
        self.name.replace('-', "_")
    }
}

/// Everything a build depends on. Crate 0 is the root.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub crates: Vec<Crate>,
    /// Which installation, and how often it was updated in place.
    pub toolchain: u64,
    pub update: u64,
    /// Whether updates in place keep the file names.
    pub same_names: bool,
    /// Decides in which order cargo reports what does not depend on each other.
    pub order: u64,
    pub clock: i64,
    /// What goes wrong: (cargo invocation of this run, kind).
    pub plan: Vec<(u64, String)>,
}
impl World {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for c in &self.crates {
            let d: Vec<String> = c.deps.iter().map(|d| d.to_string()).collect();
            writeln!(s, "crate {} {} {} {} {} {}", c.name, c.version, c.rev, c.proc_macro as u8, c.broken, if d.is_empty() { "-".into() } else { d.join(",") }).unwrap();
        }
        writeln!(s, "set {} {} {} {} {}", self.toolchain, self.update, self.same_names as u8, self.order, self.clock).unwrap();
        for (k, w) in &self.plan {
            writeln!(s, "plan {k} {w}").unwrap();
        }
        s
    }
    pub fn parse(t: &str) -> World {
        let mut w = World::default();
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| f[i].parse::<u64>().unwrap();
            match f[0] {
                "crate" => w.crates.push(Crate {
                    name: f[1].into(),
                    version: n(2),
                    rev: n(3),
                    proc_macro: n(4) == 1,
                    broken: n(5),
                    deps: if f[6] == "-" { vec![] } else { f[6].split(',').map(|x| x.parse().unwrap()).collect() },
                }),
                "set" => {
                    w.toolchain = n(1);
                    w.update = n(2);
                    w.same_names = n(3) == 1;
                    w.order = n(4);
                    w.clock = f[5].parse().unwrap();
                }
                "plan" => w.plan.push((n(1), f[2].into())),
                _ => panic!("line {l}"),
            }
        }
        w
    }
    pub fn toolchain_id(&self) -> String {
        format!("{}.{}", self.toolchain, self.update)
    }
    pub fn libdir(&self, base: &str) -> String {
        format!("{base}/toolchain{}/lib", self.toolchain)
    }
    pub fn stdlib(&self) -> Vec<(String, String)> {
        ["core", "alloc", "std", "proc_macro"]
            .iter()
            .map(|l| {
                let h = if self.same_names { self.toolchain } else { self.toolchain * 1000 + self.update };
                (format!("lib{l}-{:08x}.rmeta", simkit::mix(h) as u32), format!("stdlib {l} {}\nend\n", self.toolchain_id()))
            })
            .collect()
    }
    /// The crates the root needs, dependencies first.
    pub fn reachable(&self) -> Vec<usize> {
        fn go(w: &World, i: usize, out: &mut Vec<usize>) {
            if out.contains(&i) {
                return;
            }
            for &d in &w.crates[i].deps {
                go(w, d, out);
            }
            if !out.contains(&i) {
                out.push(i);
            }
        }
        let mut out = vec![];
        go(self, 0, &mut out);
        out
    }
}

/// How a build was configured.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Config {
    pub features: Vec<String>,
    pub release: bool,
    pub triple: bool,
}
pub const TRIPLE: &str = "x86_64-unknown-linux-gnu";

/// One compilation: a crate for the target or for the host.
#[derive(Clone, Debug)]
pub struct Unit {
    pub krate: usize,
    pub host: bool,
    pub hash: String,
    pub features: Vec<String>,
    /// The metadata a compiler would write.
    pub rmeta: String,
    /// Under the target directory.
    pub dir: String,
    pub deps: Vec<(usize, bool)>,
}

fn unit(w: &World, c: &Config, i: usize, host: bool, done: &mut BTreeMap<(usize, bool), Unit>) -> Unit {
    let k = &w.crates[i];
    // The host's and the target's compilations are one where nothing tells them apart.
    let host = host && (c.release || c.triple || k.proc_macro) || k.proc_macro;
    if let Some(u) = done.get(&(i, host)) {
        return u.clone();
    }
    let mut deps: Vec<Unit> = k.deps.iter().map(|&d| unit(w, c, d, host, done)).collect();
    deps.sort_by_key(|d| w.crates[d.krate].name.clone());
    // Feature fN of the root is forwarded to crate N.
    let features: Vec<String> = c.features.iter().filter(|f| i == 0 || **f == format!("f{i}")).cloned().collect();
    let profile = if c.release { "release" } else { "dev" };
    let mut id = format!("{} {} {:?} {profile} host={host} triple={} tc={}", k.name, k.version, features, c.triple && !host, w.toolchain_id());
    for d in &deps {
        id.push_str(&d.hash);
    }
    let hash = format!("{:016x}", simkit::hash_bytes(7, id.as_bytes()));
    let mut rmeta = format!("crate {} {}\nrev {}\nfeatures {:?}\nprofile {profile}\nhost {host}\ntriple {}\ntoolchain {}\n", k.lib(), k.version, k.rev, features, c.triple && !host, w.toolchain_id());
    match k.broken {
        2 => rmeta.push_str("UNBINDABLE\n"),
        3 => rmeta.push_str("UNBINDABLE_LATE\n"),
        _ => {}
    }
    for d in &deps {
        let did = d.rmeta.lines().find(|l| l.starts_with("id ")).unwrap().to_string();
        rmeta.push_str(&format!("dep {} {did}\n", w.crates[d.krate].lib()));
    }
    // Metadata grows and shrinks with the source only now and then.
    let idh = simkit::hash_bytes(9, rmeta.as_bytes());
    rmeta.push_str(&format!("id {idh:016x}\nend\n"));
    let profile_dir = if c.release { "release" } else { "debug" };
    let dir = if c.triple && !host { format!("{TRIPLE}/{profile_dir}") } else { profile_dir.to_string() };
    let deps = deps.iter().map(|d| (d.krate, d.host)).collect();
    let u = Unit { krate: i, host, hash, features, rmeta, dir, deps };
    done.insert((i, host), u.clone());
    u
}

/// All compilations of a build, an order in which they can happen.
pub fn units(w: &World, c: &Config) -> Vec<Unit> {
    let mut done = BTreeMap::new();
    unit(w, c, 0, false, &mut done);
    let mut left: Vec<Unit> = done.into_values().collect();
    let mut rng = simkit::Rng::new(w.order);
    let mut out: Vec<Unit> = vec![];
    while !left.is_empty() {
        let ready: Vec<usize> =
            (0..left.len()).filter(|&i| left[i].deps.iter().all(|d| out.iter().any(|o| (o.krate, o.host) == *d))).collect();
        let i = ready[rng.usize(ready.len())];
        out.push(left.remove(i));
    }
    out
}
