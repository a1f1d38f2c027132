use std::process::{Command, Stdio};

const TYPES: &[&str] = &["Def", "Cln", "Mov", "Nei", "Nic", "Big", "Own", "Enu", "Nat", "Nmo", "Nas"];

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let gen_dir = format!("{here}/../../target/bind");
    let mut kids: Vec<(&str, std::process::Child)> = vec![];
    for &t in TYPES {
        let o = format!("{out}/{t}.o");
        let _ = std::fs::remove_file(&o);
        let k = Command::new("clang++")
            .args(["-std=c++20", "-O1", "-g1", "-fexceptions", "-fno-omit-frame-pointer", "-Wno-everything", "-I/repo"])
            .arg(format!("-I{gen_dir}"))
            .arg(format!("-DTY={t}"))
            .args(["-c", "-o", &o])
            .arg(format!("{here}/cpp/one.cc"))
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        kids.push((t, k));
        println!("cargo:rustc-link-arg-bins={o}");
    }
    for (t, src, inc) in [("calls", format!("{here}/cpp/calls.cc"), format!("{gen_dir}/calls")), ("waker", "/repo/support/rs_std/waker.cc".to_string(), gen_dir.clone())] {
        let o = format!("{out}/{t}.o");
        let _ = std::fs::remove_file(&o);
        let k = Command::new("clang++")
            .args(["-std=c++20", "-O1", "-g1", "-fexceptions", "-fno-omit-frame-pointer", "-Wno-everything", "-I/repo"])
            .arg(format!("-I{inc}"))
            .args(["-c", "-o", &o])
            .arg(src)
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        kids.push((t, k));
        println!("cargo:rustc-link-arg-bins={o}");
    }
    for (t, k) in kids {
        let o = k.wait_with_output().unwrap();
        if !o.status.success() {
            println!("cargo:warning={t} does not compile");
            for l in String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).take(10) {
                println!("cargo:warning={l}");
            }
        }
    }
    println!("cargo:rustc-link-arg-bins=-lstdc++");
    for f in ["cpp", "build.rs", "calls_gen"] {
        println!("cargo:rerun-if-changed={here}/{f}");
    }
    println!("cargo:rerun-if-changed={gen_dir}/api.h");
    println!("cargo:rerun-if-changed={gen_dir}/calls/api.h");
    for f in ["bridge.h", "movable.h", "rs_std", "internal", "annotations_internal.h", "lifetime_annotations.h"] {
        println!("cargo:rerun-if-changed=/repo/support/{f}");
    }
}
