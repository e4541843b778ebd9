//! Drives tinymist-std from line-delimited JSON commands. Paths, contents and texts travel as hex.
mod batch;
#[path = "../../fb/src/builder.rs"]
mod builder;
mod fmap;
mod lock;
mod query;
mod traced;

use serde_json::Value;

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    unhex(v.as_str().unwrap())
}
pub fn path(v: &Value) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(bytes(v)).into()
}
pub fn phex(p: &std::path::Path) -> String {
    use std::os::unix::ffi::OsStrExt;
    hex(p.as_os_str().as_bytes())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    match std::env::args().nth(1).as_deref() {
        Some("batch") => batch::main(),
        Some("lock") => lock::main(),
        Some("query") => query::main(),
        Some("fmap") => fmap::main(),
        Some("builder") => builder::main(),
        Some("traced") => traced::main(),
        x => panic!("unknown mode {x:?}"),
    }
}
