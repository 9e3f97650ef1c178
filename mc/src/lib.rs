pub mod core;
pub mod exports;
pub mod iso;
pub mod kismet;
pub mod pkg;
pub mod props;
pub mod simple;
pub mod starter;
pub mod uasset;
