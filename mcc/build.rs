//! Compiles the shim with the header of the C interface
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let repo = std::env::var("REPO").unwrap_or("/repo".into());
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed={repo}/capi/rustsat.h");
    println!("cargo:rerun-if-env-changed=REPO");
    let run = |c: &mut Command| assert!(c.status().expect("C compiler").success(), "the shim does not compile with the header");
    run(Command::new("gcc").args(["-O1", "-Wall", "-Werror", "-c", "src/shim.c", &format!("-I{repo}/capi"), "-o", &format!("{out}/shim.o")]));
    run(Command::new("ar").args(["crs", &format!("{out}/libshim.a"), &format!("{out}/shim.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=shim");
}
