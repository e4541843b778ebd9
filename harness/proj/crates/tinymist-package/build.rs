include!("../gen.rs");
fn main() {
    generate("/repo/crates/tinymist-package/src", &[("pack", "src/pack.rs")]);
}
