use std::process::Command;

fn main() {
    let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rustc-env=MC_REPO={repo}");
    println!("cargo:rerun-if-env-changed=MC_REPO");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=csrc/shim.c");
    // libc's file operations, observed (only in the harness itself, not in the command)
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().expect("running a C compiler").success());
    ok(Command::new("gcc").args(["-DMC_LINKED", "-O1", "-fPIC", "-c", "csrc/shim.c", "-o"]).arg(format!("{out}/mcshim.o")));
    println!("cargo:rustc-link-arg-bin=mc={out}/mcshim.o");
}
