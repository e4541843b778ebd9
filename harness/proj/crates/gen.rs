// Shared by the build scripts here: lays out the real crate's sources (links into /repo) with a few modules replaced.
use std::{env, fs, os::unix::fs::symlink, path::{Path, PathBuf}};

/// `dir`: the real crate's src. `replace`: file or directory in it -> the file to use instead.
pub fn generate(dir: &str, replace: &[(&str, &str)]) {
    let here = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("src");
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).unwrap();
    println!("cargo:rerun-if-changed={dir}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../gen.rs");
    for e in fs::read_dir(dir).unwrap() {
        let name = e.unwrap().file_name().into_string().unwrap();
        let stem = name.trim_end_matches(".rs");
        if name != "lib.rs" && !replace.iter().any(|(n, _)| *n == stem) {
            symlink(Path::new(dir).join(&name), out.join(&name)).unwrap();
        }
    }
    for (n, to) in replace {
        symlink(here.join(to), out.join(format!("{n}.rs"))).unwrap();
    }
    let text = fs::read_to_string(Path::new(dir).join("lib.rs")).unwrap();
    let kept = text.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#!["));
    fs::write(out.join("lib.rs"), kept.collect::<Vec<_>>().join("\n")).unwrap();
}
