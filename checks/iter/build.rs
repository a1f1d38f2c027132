use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let gen_dir = format!("{here}/../../target/iter");
    let o = format!("{out}/iters.o");
    let _ = std::fs::remove_file(&o);
    let c = Command::new("clang++")
        .args(["-std=c++20", "-O1", "-g1", "-fexceptions", "-fno-omit-frame-pointer", "-Wno-everything", "-I/repo"])
        .arg(format!("-I{gen_dir}"))
        .args(["-c", "-o", &o])
        .arg(format!("{here}/cpp/iters.cc"))
        .output()
        .unwrap();
    println!("cargo:rustc-link-arg-bins={o}");
    if !c.status.success() {
        println!("cargo:warning=iters.cc does not compile");
        for l in String::from_utf8_lossy(&c.stderr).lines().filter(|l| l.contains("error")).take(10) {
            println!("cargo:warning={l}");
        }
    }
    println!("cargo:rustc-link-arg-bins=-lstdc++");
    for f in ["cpp", "build.rs"] {
        println!("cargo:rerun-if-changed={here}/{f}");
    }
    println!("cargo:rerun-if-changed={gen_dir}/api.h");
    for f in ["bridge.h", "movable.h", "rs_std", "internal", "annotations_internal.h", "lifetime_annotations.h"] {
        println!("cargo:rerun-if-changed=/repo/support/{f}");
    }
}
