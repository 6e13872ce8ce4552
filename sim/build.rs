use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=rt.h");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/rt.o", out);
    let lib = format!("{}/libsimrt.a", out);
    let ok = Command::new("gcc")
        .args(["-O2", "-g1", "-fno-pic", "-fno-omit-frame-pointer", "-Wall", "-Wno-misleading-indentation", "-c", "rt.c", "-o", &obj])
        .status().map(|s| s.success()).unwrap_or(false);
    assert!(ok, "gcc failed");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rustc-link-arg=-ldl");
}
