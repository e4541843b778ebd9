use std::{env, fs, os::unix::fs::symlink, path::PathBuf};
/// The real task module, without the tasks that need typst itself.
fn main() {
    let src = PathBuf::from("/repo/crates/tinymist/src/task");
    let left = ["export2", "format", "user_action"];
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("task");
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).unwrap();
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    for e in fs::read_dir(&src).unwrap() {
        let name = e.unwrap().file_name().into_string().unwrap();
        if name != "mod.rs" && !left.contains(&name.trim_end_matches(".rs")) {
            symlink(src.join(&name), out.join(&name)).unwrap();
        }
    }
    let text = fs::read_to_string(src.join("mod.rs")).unwrap();
    let kept = text.lines().filter(|l| {
        let l = l.trim_start_matches("pub ").trim_start_matches("(crate) ");
        !l.starts_with("//!") && !left.iter().any(|m| l == format!("mod {m};") || l.starts_with(&format!("use {m}::")))
    });
    fs::write(out.join("mod.rs"), kept.collect::<Vec<_>>().join("\n")).unwrap();
    for f in ["project.rs", "input.rs", "actor/editor.rs", "stats.rs"] {
        println!("cargo:rerun-if-changed=/repo/crates/tinymist/src/{f}");
    }
}
