//! The explorers of the background thread.
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/manager.rs"));

#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod disk;
mod install;
mod library;
mod lifetime;
mod native;
mod release;
mod settings;
mod world;

fn main() {
    // the program that is started again after an update is this one
    if std::env::var_os("MC_UPDATED").is_some() {
        return;
    }
    // a client reads every certificate of the machine before its first request
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    disk::fence();
    mc::core::main(&[("P29", library::run), ("P30", settings::run), ("P31", install::run), ("P32", native::run), ("P33", release::run), ("P35", lifetime::run)])
}
