// Takes the crate's backend detection as it is in the working tree and exchanges only the names of
// the synchronisation primitives and of the availability query for controlled ones.
use std::{env, fs, path::Path};

fn main() {
    let src = "/repo/src/detection.rs";
    println!("cargo:rerun-if-changed={src}");
    let mut s = fs::read_to_string(src).expect("detection.rs");
    for p in ["core::sync", "std::sync"] {
        s = s.replace(&format!("::{p}"), p).replace(p, "crate::shim::sync");
    }
    for p in ["core::thread", "std::thread", "core::hint", "std::hint"] {
        s = s.replace(&format!("::{p}"), p).replace(p, "crate::shim::thread");
    }
    s = s.replace("proc_macro::is_available", "crate::shim::is_available");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("detection.rs"), s).unwrap();
}
