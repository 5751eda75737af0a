use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/simrt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-fno-pic", "-no-pie", "-fno-strict-aliasing", "-fno-ipa-reference", "-c", "rt/simrt.c", "-o", &obj])
        .status()
        .unwrap()
        .success();
    assert!(ok, "gcc failed on rt/simrt.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rustc-link-arg-bins=-no-pie");
    println!("cargo:rerun-if-changed=build.rs");
}
