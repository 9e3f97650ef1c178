mod bits;
mod fstring;
mod guid;
mod hash;
mod path;

fn main() {
    mc::core::main(&[
        ("P05", fstring::p05),
        ("P06", guid::p06),
        ("P07", path::p07),
        ("P20", hash::p20),
        ("P24", bits::p24),
    ]);
}
