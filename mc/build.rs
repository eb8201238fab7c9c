use std::{env, path::Path, process::Command};
// Compiles the frozen reference implementation and the signal guard.
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let src = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../oracle");
    println!("cargo:rerun-if-changed={}", src.display());
    let mut objs = vec![];
    let mut children = vec![];
    let mut files = vec!["oracle_floor", "oracle_trunc", "guard"];
    if env::var("CARGO_FEATURE_RACE").is_ok() {
        files.push("race");
    }
    for f in files {
        let o = format!("{}/{}.o", out, f);
        children.push(
            Command::new("g++")
                .args(["-O2", "-fPIC", "-fwrapv", "-fno-strict-aliasing", "-w", "-c"])
                .arg(src.join(format!("{}.cpp", f)))
                .arg("-o")
                .arg(&o)
                .spawn()
                .expect("g++"),
        );
        objs.push(o);
    }
    for mut c in children {
        assert!(c.wait().unwrap().success());
    }
    let lib = format!("{}/libmcoracle.a", out);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("rcs").arg(&lib).args(&objs).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=mcoracle");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
