use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let o = format!("{out}/lossy.o");
    let ok = Command::new("clang++")
        .args(["-std=c++20", "-O1", "-g1", "-fno-exceptions", "-Wno-everything", "-I/repo", "-c", "-o", &o])
        .arg(format!("{here}/cpp/lossy.cc"))
        .status()
        .unwrap();
    assert!(ok.success(), "clang++ lossy.cc");
    let lib = format!("{out}/liblossycc.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rerun-if-changed={here}/cpp");
    println!("cargo:rerun-if-changed={here}/build.rs");
    println!("cargo:rerun-if-changed=/repo/support/rs_std/lossy_formatter_for_bindings.h");
}
