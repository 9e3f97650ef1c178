//! Writes the starter assets: starter <directory>
fn main() {
    let d = std::env::args().nth(1).expect("directory");
    for (n, b) in mc::starter::files() {
        std::fs::write(format!("{d}/{n}"), b).unwrap();
    }
}
