include!("../gen.rs");
fn main() {
    generate("/repo/crates/tinymist-task/src", &[("compute", "src/compute.rs")]);
}
