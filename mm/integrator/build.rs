//! Lays out the cooked starter assets where the integrator's `include_bytes!` looks for them.
use std::{env, fs, path::PathBuf};

fn main() {
    let starter = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("starter");
    println!("cargo:rerun-if-changed={}", starter.display());
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap())
        .join("ModIntegrator/Saved/Cooked/WindowsNoEditor/ModIntegrator/Content/Integrator");
    fs::create_dir_all(&out).unwrap();
    for e in fs::read_dir(&starter).unwrap() {
        let e = e.unwrap();
        fs::copy(e.path(), out.join(e.file_name())).unwrap();
    }
}
