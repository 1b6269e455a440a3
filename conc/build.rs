use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = "../engine/mc.c";
    println!("cargo:rerun-if-changed={src}");
    let o = format!("{out}/mc.o");
    let ok = Command::new("gcc")
        .args(["-O3", "-g", "-Wall", "-fno-sanitize=all", "-c", src, "-o", &o])
        .status()
        .unwrap()
        .success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg={o}");
}
