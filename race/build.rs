use std::process::Command;

/// The runtime behind the compiler's memory-access instrumentation, itself not instrumented.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=rt.c");
    let obj = format!("{out}/rt.o");
    let ok = Command::new("cc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &obj]).status().map_or(false, |s| s.success());
    assert!(ok, "cc failed");
    println!("cargo:rustc-link-arg={obj}");
}
