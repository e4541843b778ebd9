include!("../gen.rs");
fn main() {
    generate("/repo/crates/tinymist-project/src", &[("lsp", "src/lsp.rs"), ("world", "src/world.rs")]);
}
