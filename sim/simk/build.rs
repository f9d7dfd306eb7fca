use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=simk.c");
    println!("cargo:rerun-if-changed=simk.h");
    let run = |cmd: &mut Command| {
        let st = cmd.status().expect("cannot run the C compiler");
        assert!(st.success(), "C compiler failed: {cmd:?}");
    };
    run(Command::new("gcc").args(["-O2", "-g", "-fPIC", "-fno-delete-null-pointer-checks", "-Wall", "-c", "simk.c", "-o"]).arg(format!("{out}/simk.o")));
    let _ = std::fs::remove_file(format!("{out}/libsimk.a"));
    run(Command::new("ar").arg("crs").arg(format!("{out}/libsimk.a")).arg(format!("{out}/simk.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simk");
    println!("cargo:rustc-link-lib=dylib=dl");
}
