fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let st = std::process::Command::new("gcc")
        .args(["-O2", "-fPIC", "-c", "shim.c", "-o"])
        .arg(format!("{out}/shim.o"))
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={out}/shim.o");
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=build.rs");
}
