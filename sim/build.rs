// Compiles the runtime that the compiler's memory access instrumentation calls into.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/hooks.o");
    let lib = format!("{out}/libvsimhooks.a");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("gcc").args(["-O2", "-g", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-c", "rt/hooks.c", "-o", &obj]).status().unwrap().success();
    assert!(ok, "gcc failed");
    let ok = Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=vsimhooks");
    println!("cargo:rerun-if-changed=rt/hooks.c");
    println!("cargo:rerun-if-changed=build.rs");
}
