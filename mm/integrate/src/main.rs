#[path = "../../manager/src/disk.rs"]
#[allow(dead_code, unknown_lints, invalid_runtime_symbol_definitions)]
mod disk;
mod lists;
mod maps;
mod world;

fn main() {
    mc::core::main(&[("P25", lists::run), ("P26", maps::run)])
}
