// Finds the LLVM that ships inside the Rust toolchain (it exports the LLVM-C API) and Z3.
use std::{env, fs, path::PathBuf, process::Command};
fn main() {
    let rustc = env::var("RUSTC").unwrap_or("rustc".into());
    let sysroot = String::from_utf8(Command::new(rustc).args(["--print", "sysroot"]).output().unwrap().stdout).unwrap();
    let lib = PathBuf::from(sysroot.trim()).join("lib");
    let mut found = None;
    for e in fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so.") { found = Some(n); }
    }
    let so = found.expect("libLLVM in the toolchain");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let link = out.join("libLLVMrust.so");
    let _ = fs::remove_file(&link);
    std::os::unix::fs::symlink(lib.join(&so), &link).unwrap();
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=dylib=LLVMrust");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
