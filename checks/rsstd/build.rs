use std::process::{Command, Stdio};

/// The C++ objects each program is linked with. A file that does not compile breaks only the
/// programs that need it.
const BINS: &[(&str, &[&str])] = &[
    ("c03", &["cpp/future.cc", "/repo/support/rs_std/waker.cc", "/repo/support/rs_std/cpp_waker.cc"]),
    ("c04", &["cpp/callable.cc"]),
    ("c05", &["cpp/string.cc", "cpp/bridge.cc"]),
    ("c19", &["cpp/string.cc", "cpp/bridge.cc"]),
];

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let mut kids = std::collections::BTreeMap::new();
    let obj = |f: &str| format!("{out}/{}.o", f.replace('/', "_"));
    for f in BINS.iter().flat_map(|b| b.1) {
        kids.entry(*f).or_insert_with(|| {
            let path = if f.starts_with('/') { f.to_string() } else { format!("{here}/{f}") };
            let _ = std::fs::remove_file(obj(f));
            Command::new("clang++")
                .args(["-std=c++20", "-O1", "-g1", "-fno-exceptions", "-fno-omit-frame-pointer", "-fsized-deallocation", "-Wno-everything", "-I/repo"])
                .arg(format!("-I{here}/cpp/include"))
                .arg(format!("-I{here}/cpp"))
                .args(["-c", "-o", &obj(f)])
                .arg(path)
                .stderr(Stdio::piped())
                .spawn()
                .unwrap()
        });
    }
    for (f, k) in kids {
        let o = k.wait_with_output().unwrap();
        if !o.status.success() {
            println!("cargo:warning={f} does not compile");
            for l in String::from_utf8_lossy(&o.stderr).lines().take(20) {
                println!("cargo:warning={l}");
            }
        }
    }
    for (b, fs) in BINS {
        for f in *fs {
            println!("cargo:rustc-link-arg-bin={b}={}", obj(f));
        }
        println!("cargo:rustc-link-arg-bin={b}=-lstdc++");
    }
    for f in ["cpp", "build.rs"] {
        println!("cargo:rerun-if-changed={here}/{f}");
    }
    for f in ["bridge.h", "cc_std_impl/conversion_function_helpers.h", "rs_std", "internal"] {
        println!("cargo:rerun-if-changed=/repo/support/{f}");
    }
}
