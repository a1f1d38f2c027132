use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O2", "-w", "-fPIC", "-c", "c/interpose.c", "-o"]).arg(format!("{out}/interpose.o")).status().unwrap();
    assert!(ok.success());
    println!("cargo:rustc-link-arg-bin=c11={out}/interpose.o");
    println!("cargo:rustc-link-arg-bin=c11=-rdynamic");
    println!("cargo:rerun-if-changed=c");
}
