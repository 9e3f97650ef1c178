mod chain;
mod imap;
mod names;

fn main() {
    mc::core::main(&[("P08", chain::p08), ("P09", imap::p09), ("P10", names::p10)]);
}
