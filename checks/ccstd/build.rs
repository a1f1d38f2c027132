use std::path::Path;
use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let mut objs = vec![];
    for f in ["smart.cc", "uniq.cc", "vec.cc"] {
        let o = format!("{out}/{f}.o");
        let ok = Command::new("clang++")
            .args(["-std=c++20", "-O1", "-g1", "-fno-exceptions", "-fno-omit-frame-pointer", "-fsized-deallocation", "-Wno-everything", "-I/repo"])
            .arg(format!("-I{here}/cpp/include"))
            .arg(format!("-I{here}/cpp"))
            .args(["-c", "-o", &o])
            .arg(format!("{here}/cpp/{f}"))
            .status()
            .unwrap();
        assert!(ok.success(), "clang++ {f}");
        objs.push(o);
    }
    let lib = format!("{out}/libside.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=side");
    println!("cargo:rustc-link-lib=stdc++");
    for f in ["cpp", "build.rs"] {
        println!("cargo:rerun-if-changed={here}/{f}");
    }
    println!("cargo:rerun-if-changed=/repo/support/cc_std_impl/std_allocator.h");
    let _ = Path::new("/");
}
