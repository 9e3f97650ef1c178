mod damage;
mod edits;
mod exports;
mod kismet;
mod mappings;
mod properties;
mod samples;
mod streams;
mod tables;
mod transplant;
mod versions;
fn main() {
    mc::core::main(&[("P11", edits::run), ("P12", tables::run), ("P13", properties::run), ("P14", kismet::run), ("P15", exports::run), ("P21", versions::run), ("P22", damage::run), ("P23", transplant::run), ("P27", streams::run), ("P34", mappings::run)])
}
