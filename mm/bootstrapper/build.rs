//! Stand-ins for the compiled loader, which upstream's build fetches from the network.
use std::{env, fs, path::PathBuf};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    for (var, name) in [("CPP_LOADER_DLL_PATH", "UnrealCppLoader.dll"), ("CPP_LOADER_PROXY_PATH", "xinput1_3.dll")] {
        let p = out.join(name);
        fs::write(&p, format!("stand-in for {name}")).unwrap();
        println!("cargo:rustc-env={var}={}", p.display());
    }
}
