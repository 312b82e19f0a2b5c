use std::{env, path::PathBuf, process::Command};

// Compiles shim.c (the basic-block hook and the per-thread simulator state)
// and race.c (the memory-access hooks)
// with the system C compiler: the hook must not itself be instrumented.
fn main() {
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed=src/race.c");
    println!("cargo:rerun-if-changed=src/tls.h");
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let lib = out.join("libsimshim.a");
    // Set by build.sh when the crate is built with memory-access hooks.
    println!("cargo:rerun-if-env-changed=SIM_RACE");
    let race = env::var_os("SIM_RACE").is_some();
    let mut objs = Vec::new();
    for f in ["shim", "race"] {
        let obj = out.join(format!("{f}.o"));
        let mut c = Command::new("gcc");
        c.args(["-O2", "-fPIE", "-ftls-model=local-exec", "-c"]).arg(format!("src/{f}.c")).arg("-o").arg(&obj);
        if race {
            c.arg("-DSIM_RACE");
        }
        assert!(c.status().expect("gcc").success());
        objs.push(obj);
    }
    let _ = std::fs::remove_file(&lib);
    let st = Command::new("ar").arg("crs").arg(&lib).args(&objs).status().expect("ar");
    assert!(st.success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=simshim");
}
