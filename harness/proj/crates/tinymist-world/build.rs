include!("../gen.rs");
fn main() {
    generate("/repo/crates/tinymist-world/src", &[("parser", "src/parser.rs")]);
}
