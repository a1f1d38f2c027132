//! The real generator as a process, its input crates and its command lines.
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// The input crates. The last two never succeed.
pub const CRATES: [&str; 11] = ["tiny", "empty", "rich", "errors", "dep", "user", "big", "nostd", "traits", "mustbind", "broken"];
pub const GENERATOR: &str = "cc_bindings_from_rs";

pub fn bins() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}
pub fn target() -> PathBuf {
    bins().parent().unwrap().to_path_buf()
}
pub fn sysroot() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        let o = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap();
        String::from_utf8(o.stdout).unwrap().trim().to_string()
    })
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    Ok,
    Failed(i32),
    Killed(i32),
}

/// One command line.
#[derive(Clone, Default)]
pub struct Cmd {
    pub krate: usize,
    /// What changes the content: see `variant_args`.
    pub variant: u64,
    /// The directory with the input crates.
    pub input: String,
    pub out: String,
    pub cpp: bool,
    pub report: bool,
    pub clang_format: Option<String>,
    pub rustfmt: Option<String>,
    pub rustfmt_config: Option<String>,
    /// A file to pass the arguments in.
    pub argfile: Option<String>,
    /// Rotates the order of arguments that have none.
    pub rotate: usize,
}

pub const VARIANTS: u64 = 7;

impl Cmd {
    pub fn name(&self) -> &'static str {
        CRATES[self.krate]
    }
    pub fn source(&self) -> bool {
        self.variant == 6
    }
    pub fn kythe(&self) -> bool {
        self.variant == 3
    }
    pub fn h(&self) -> String {
        format!("{}/api.h", self.out)
    }
    pub fn rs(&self) -> String {
        format!("{}/impl.rs", self.out)
    }
    pub fn cc(&self) -> String {
        format!("{}/touched.cc", self.out)
    }
    pub fn json(&self) -> String {
        format!("{}/report.json", self.out)
    }
    pub fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![format!("--h-out={}", self.h()), format!("--rs-out={}", self.rs()), "--crubit-support-path-format=\"support/{header}\"".into()];
        if self.cpp {
            v.push(format!("--cpp-out={}", self.cc()));
        }
        if self.report {
            v.push(format!("--error-report-out={}", self.json()));
        }
        if let Some(p) = &self.clang_format {
            v.push(format!("--clang-format-exe-path={p}"));
        }
        if let Some(p) = &self.rustfmt {
            v.push(format!("--rustfmt-exe-path={p}"));
        }
        if let Some(p) = &self.rustfmt_config {
            v.push(format!("--rustfmt-config-path={p}"));
        }
        v.push(format!("--default-features={}", ["supported,experimental", "supported"][(self.variant == 4) as usize]));
        match self.variant {
            1 => v.push("--h-out-include-guard=SOME_GUARD_H_".into()),
            2 => v.push("--is-golden-test".into()),
            3 => {
                v.push("--kythe-annotations".into());
                v.push("--kythe-default-corpus=acorpus".into());
            }
            5 => {
                v.push("--extra-rs-srcs-include=extra/one.h".into());
                v.push("--extra-rs-srcs-include=extra/another.h".into());
                v.push(format!("--crate-namespace={}=outer::inner", self.name()));
                v.push("--crubit-debug-path-format=https://code/{path}#{line}".into());
            }
            _ => {}
        }
        // As the cargo subcommand does for the standard library.
        // It takes its time.
        if self.name() == "traits" {
            for s in ["core", "alloc", "std"] {
                v.push(format!("--crate-header={s}=gen/{s}.h"));
            }
        }
        v.push("--crate-header=dep=gen/dep_cc.h".into());
        v.push("--crate-header=dep=gen/dep_more.h".into());
        if self.rotate > 0 {
            // The order of different flags means nothing.
            let n = v.len();
            let repeated = |s: &String| s.starts_with("--crate-header") || s.starts_with("--extra-rs");
            let (keep, mut move_): (Vec<String>, Vec<String>) = v.into_iter().partition(repeated);
            let m = move_.len();
            move_.rotate_left(self.rotate % m);
            v = move_;
            v.extend(keep);
            assert_eq!(n, v.len());
        }
        let mut externs = vec![];
        if self.name() == "user" {
            externs.push(("dep", format!("{}/libdep.rmeta", self.input)));
        }
        if self.source() {
            v.push("--enable-rmeta-interface=false".into());
            v.push("--".into());
            v.push(format!("{}/{}.rs", self.input, self.name()));
            v.push("--crate-type=lib".into());
            v.push("--edition=2021".into());
            v.push(format!("--crate-name={}", self.name()));
            v.push(format!("--sysroot={}", sysroot()));
            v.push(format!("-Ldependency={}", self.input));
            for (n, p) in externs {
                v.push(format!("--extern={n}={p}"));
            }
        } else {
            v.push(format!("--source-crate-name={}", self.name()));
            externs.push((self.name(), format!("{}/lib{}.rmeta", self.input, self.name())));
            if self.rotate % 2 == 1 {
                externs.reverse();
            }
            for (n, p) in externs {
                v.push(format!("--extern={n}={p}"));
            }
            v.push(format!("--sysroot={}", sysroot()));
            v.push(format!("-Ldependency={}", self.input));
        }
        v
    }
    pub fn run(&self, exe: &str, cwd: &str, env: &[(String, String)]) -> (End, String) {
        let mut cmd = Command::new(exe);
        cmd.env_clear().env("PATH", "/usr/bin:/bin").env("LD_LIBRARY_PATH", format!("{}/lib", sysroot()));
        for (k, v) in env {
            cmd.env(k, v);
        }
        let args = self.args();
        if let Some(f) = &self.argfile {
            fs::write(f, args.join("\n")).unwrap();
            cmd.arg(format!("@{f}"));
        } else {
            cmd.args(&args);
        }
        let o = cmd.current_dir(cwd).stdin(Stdio::null()).output().unwrap();
        let end = match (o.status.code(), o.status.signal()) {
            (Some(0), _) => End::Ok,
            (Some(c), _) => End::Failed(c),
            (None, s) => End::Killed(s.unwrap_or(0)),
        };
        let said = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        if std::env::var_os("SIM_SHOW").is_some() {
            eprintln!("--- {end:?} {} variant {}\n{said}", self.name(), self.variant);
        }
        (end, said)
    }
    /// Whether this input can be bound at all.
    pub fn sound(&self) -> bool {
        self.name() != "mustbind" && self.name() != "broken"
    }
}

/// What sources say the header must mention.
pub fn public_items(name: &str) -> Vec<String> {
    let s = fs::read_to_string(target().join(format!("genpool/{name}.rs"))).unwrap();
    let words: Vec<&str> = s.split_whitespace().collect();
    let mut v = vec![];
    for w in words.windows(3) {
        if w[0] == "pub" && ["fn", "struct", "enum"].contains(&w[1]) {
            let n: String = w[2].trim_start_matches("r#").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            v.push(n);
        }
    }
    v
}
