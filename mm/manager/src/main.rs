#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/manager.rs"));

mod deps;

fn main() {
    mc::core::main(&[("P28", deps::run)])
}
