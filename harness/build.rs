//! Compiles the C shim against the library's public header.
use std::path::Path;
use std::process::Command;

fn cc(header_dir: &str, out: &str) -> bool {
    let o = format!("{}/shim.o", out);
    let a = format!("{}/libvkshim.a", out);
    let _ = std::fs::remove_file(&a);
    ["gcc", "cc", "clang"].iter().any(|c| {
        Command::new(c)
            .args(["-O2", "-fPIC", "-std=c99", "-Wall", "-Werror=implicit-function-declaration", "-I", header_dir, "-c", "c/shim.c", "-o", &o])
            .status()
            .is_ok_and(|s| s.success())
    }) && Command::new("ar").args(["crs", &a, &o]).status().is_ok_and(|s| s.success())
}

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let dir = "/repo/assets";
    let mut header = "library";
    if !Path::new(dir).join("ebur128.h").exists() {
        // moved: the C library's header at the time of writing stands in
        header = "moved";
        assert!(cc("c/fallback", &out), "cannot compile the C shim");
    } else if !cc(dir, &out) {
        header = "broken";
        assert!(cc("c/fallback", &out), "cannot compile the C shim");
    }
    println!("cargo:rustc-env=VK_HEADER={}", header);
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=vkshim");
    println!("cargo:rerun-if-changed=c");
    println!("cargo:rerun-if-changed={}/ebur128.h", dir);
}
