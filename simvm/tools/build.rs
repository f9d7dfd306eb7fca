use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=../../sim/simk/simk.c");
    println!("cargo:rerun-if-changed=../../sim/simk/simk.h");
    let so = format!("{out}/simk_preload.so");
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-shared", "-fno-delete-null-pointer-checks", "-Wall", "-DSIMK_PRELOAD", "../../sim/simk/simk.c", "-o", &so, "-ldl"])
        .status()
        .expect("cannot run the C compiler");
    assert!(st.success(), "C compiler failed");
    println!("cargo:rustc-env=SIMK_PRELOAD_SO={so}");
}
