//! One call per line, one result per line.
use crate::{bytes, hex, path, phex};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::path::Path;
use tinymist_std::fs::paths;
use tinymist_std::hash::{Fingerprint, FingerprintBuilder};

fn res<T>(r: Result<T, impl std::fmt::Debug>, f: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(v) => json!({"ok": f(v)}),
        Err(e) => json!({"err": format!("{e:?}")}),
    }
}
fn unit<T>(r: Result<T, impl std::fmt::Debug>) -> Value {
    res(r, |_| json!(true))
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn fp(v: &Value) -> Fingerprint {
    let b = bytes(v);
    Fingerprint::from_pair(
        u64::from_le_bytes(b[..8].try_into().unwrap()),
        u64::from_le_bytes(b[8..].try_into().unwrap()),
    )
}
fn fphex(f: Fingerprint) -> Value {
    json!(hex(&f.to_u128().to_le_bytes()))
}

struct Key<'a>(&'a [u8]);
impl std::hash::Hash for Key<'_> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write(self.0)
    }
}
#[derive(Hash)]
struct Own(Vec<u8>);
#[derive(Hash)]
struct Own2(Vec<u8>);

pub struct St {
    b: FingerprintBuilder,
}

pub fn call(st: &mut St, c: &Value) -> Value {
    let p = || path(&c["p"]);
    let q = || path(&c["q"]);
    let data = || bytes(&c["c"]);
    match c["op"].as_str().unwrap() {
        // path functions
        "normalize" => json!(phex(&paths::normalize_path(&p()))),
        "clean" => json!(phex(&tinymist_std::path::clean(p()))),
        "unix_slash" => json!(hex(tinymist_std::path::unix_slash(&p()).as_bytes())),
        "diff" => tinymist_std::path::diff(&p(), &q()).map_or(Value::Null, |x| json!(phex(&x))),
        "ancestors" => {
            let (p, q) = (p(), c["q"].as_str().map(|_| q()));
            Value::Array(paths::ancestors(&p, q.as_deref()).take(200).map(|x| json!(phex(x))).collect())
        }
        "strip" => res(paths::strip_prefix_canonical(p(), q()), |x| json!(phex(&x))),
        "path2bytes" => {
            let p = p();
            res(paths::path2bytes(&p).and_then(|b| paths::bytes2path(b)), |x| json!(phex(&x)))
        }
        "join_paths" => {
            let v: Vec<_> = c["ps"].as_array().unwrap().iter().map(path).collect();
            res(paths::join_paths(&v, "X"), |x| json!(phex(Path::new(&x))))
        }
        "resolve" => res(paths::resolve_executable(&p()), |x| json!(phex(&x))),
        "setpath" => {
            std::env::set_var("PATH", p());
            json!(true)
        }
        // file functions
        "read" => res(paths::read(&p()), |x| json!(hex(x.as_bytes()))),
        "read_bytes" => res(paths::read_bytes(&p()), |x| json!(hex(&x))),
        "write" => unit(paths::write(p(), data())),
        "write_atomic" => unit(paths::write_atomic(p(), data())),
        "write_if_changed" => unit(paths::write_if_changed(p(), data())),
        "append" => unit(paths::append(&p(), &data())),
        "create" => unit(paths::create(p())),
        "open" => unit(paths::open(p())),
        "metadata" => res(paths::metadata(p()), |m| json!([m.is_dir(), m.len()])),
        "symlink_metadata" => res(paths::symlink_metadata(p()), |m| json!([m.is_symlink(), m.is_dir()])),
        "link_or_copy" => unit(paths::link_or_copy(p(), q())),
        "copy" => res(paths::copy(p(), q()), |n| json!(n)),
        "create_dir_all" => unit(paths::create_dir_all(p())),
        "remove_dir_all" => unit(paths::remove_dir_all(p())),
        "remove_dir" => unit(paths::remove_dir(p())),
        "remove_file" => unit(paths::remove_file(p())),
        "excluded" => unit(paths::create_dir_all_excluded_from_backups_atomic(p())),
        "temp_dir" => {
            // runs in a fresh directory below p; leaves files in it; may fail or panic
            let how = c["how"].as_str().unwrap().to_owned();
            let mut seen = Value::Null;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                paths::temp_dir_in(p(), |d| {
                    std::fs::create_dir(d.join("x"))?;
                    std::fs::write(d.join("x/y"), b"z")?;
                    seen = json!([phex(d), d.is_dir()]);
                    match how.as_str() {
                        "err" => Err(std::io::Error::other("no").into()),
                        "panic" => panic!("boom"),
                        _ => Ok(5),
                    }
                })
            }));
            json!({"seen": seen, "r": match r { Ok(Ok(5)) => "ok", Ok(Ok(_)) => "?", Ok(Err(_)) => "err", Err(_) => "panic" }})
        }
        "siblings" => {
            let fs = tinymist_std::fs::flock::Filesystem::new(p());
            let lock = fs.open_rw_exclusive_create(q(), "x");
            match lock {
                Ok(l) => unit(l.remove_siblings()),
                Err(e) => json!({"nolock": format!("{e:?}")}),
            }
        }
        // fingerprints
        // everything about one fingerprint
        "fp_all" => {
            let f = fp(&c["f"]);
            let id = f.as_svg_id("");
            let t = |r: std::thread::Result<Value>| r.unwrap_or(json!("!"));
            let back = |r: Result<Fingerprint, String>| match r {
                Ok(g) if g == f => fphex(g),
                Ok(g) => json!(format!("unequal {}", fphex(g))),
                Err(_) => json!(""),
            };
            let g = Fingerprint::from_u128(f.to_u128());
            json!({
                "s": id,
                "prefixed": f.as_svg_id("pre-"),
                "back": t(std::panic::catch_unwind(|| back(Fingerprint::try_from_str(&id).map_err(|e| e.to_string())))),
                "jback": t(std::panic::catch_unwind(|| back(serde_json::from_value(serde_json::to_value(f).unwrap()).map_err(|e| e.to_string())))),
                "uback": back(Ok(g)),
            })
        }
        "fp_probe" => {
            let s = String::from_utf8(bytes(&c["s"])).unwrap();
            let t = |f: &dyn Fn() -> Option<Fingerprint>| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map(|x| x.map_or(String::new(), |x| fphex(x).as_str().unwrap().into())).unwrap_or("!".into())
            };
            let got = t(&|| Fingerprint::try_from_str(&s).ok());
            let jgot = t(&|| serde_json::from_value(json!(s)).ok());
            let id = if got.len() == 32 { fp(&json!(got)).as_svg_id("") } else { String::new() };
            json!({"s": s, "got": got, "jgot": jgot, "id": id})
        }
        "fp_text" => json!(hex(fp(&c["f"]).as_svg_id(leak(c["prefix"].as_str().unwrap_or("").into())).as_bytes())),
        "fp_parse" => match String::from_utf8(bytes(&c["s"])) {
            Ok(s) => res(Fingerprint::try_from_str(&s), fphex),
            Err(_) => json!({"err": "not a str"}),
        },
        "fp_json" => {
            let s = serde_json::to_string(&fp(&c["f"])).unwrap();
            res(serde_json::from_str::<Fingerprint>(&s), fphex)
        }
        "fp_unjson" => match String::from_utf8(bytes(&c["s"])) {
            Ok(s) => res(serde_json::from_value::<Fingerprint>(json!(s)), fphex),
            Err(_) => json!({"err": "not a str"}),
        },
        "fp_u128" => {
            let f = fp(&c["f"]);
            let g = Fingerprint::from_u128(f.to_u128());
            json!([hex(&g.to_u128().to_le_bytes()), f == g, f.lower32(), format!("{f:?}")])
        }
        "fp_cmp" => json!([fp(&c["f"]) == fp(&c["g"]), fp(&c["f"]) < fp(&c["g"])]),
        "fb_new" => {
            st.b = FingerprintBuilder::default();
            json!(true)
        }
        "fb_resolve" => fphex(if c["ty"] == 1 { st.b.resolve(&Own(data())) } else { st.b.resolve(&Own2(data())) }),
        "fb_unchecked" => fphex(st.b.resolve_unchecked(&Key(&data()))),
        op => panic!("unknown op {op}"),
    }
}

pub fn main() {
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut st = St { b: Default::default() };
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&mut st, &c)))
            .unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"panic": m})
            });
        writeln!(out, "{r}").unwrap();
        if c["flush"] == true {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
