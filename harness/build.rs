use std::process::Command;

// Compiles the process simulator and links it into `subject` only.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let sim = format!("{}/../sim", std::env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed={sim}/sim.c");
    println!("cargo:rerun-if-changed={sim}/sim.h");
    println!("cargo:rerun-if-changed=build.rs");
    let obj = format!("{out}/sim.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-Wall", "-Wno-unused-parameter", "-Wno-nonnull-compare", "-fno-builtin",
               "-U_FORTIFY_SOURCE", "-fPIC", "-c", &format!("{sim}/sim.c"), "-o", &obj])
        .status().expect("gcc").success();
    assert!(ok, "gcc failed on sim.c");
    println!("cargo:rustc-link-arg-bin=subject={obj}");
    println!("cargo:rustc-link-arg-bin=subject=-rdynamic");
}
