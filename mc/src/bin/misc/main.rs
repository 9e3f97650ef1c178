mod ac7;
mod metadata;
mod usmap;
fn main() {
    mc::core::main(&[("P16", usmap::run), ("P18", ac7::run), ("P19", metadata::run)])
}
