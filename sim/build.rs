use std::process::Command;
fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O2", "-g", "-Wall", "-Wno-misleading-indentation", "-c", "rt/simrt.c", "-o"]).arg(format!("{o}/simrt.o")).status().unwrap().success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg-bins={o}/simrt.o");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=rt/simrt.h");
}
