use std::process::Command;
fn main() {
    // libLLVM of the active rust toolchain: the same LLVM that wrote the bitcode.
    let out = Command::new(std::env::var("RUSTC").unwrap_or("rustc".into()))
        .args(["--print", "sysroot"]).output().unwrap();
    let sys = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", sys.trim());
    let so = std::fs::read_dir(&lib).unwrap().filter_map(|e| e.ok())
        .map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM") && n.contains(".so"))
        .expect("libLLVM in toolchain");
    println!("cargo:rustc-link-arg={lib}/{so}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
