mod cli;
mod damage;
mod ops;
mod refpak;
mod roundtrip;

fn main() {
    mc::core::main(&[("P01", roundtrip::p01), ("P02", damage::p02), ("P03", ops::p03), ("P04", cli::p04)]);
}
