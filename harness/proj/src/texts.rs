//! Positions: one JSON order per line, {enc, text, at: [[line, column]], is: [byte offset]} -> {at: [byte offset or -1, -2 if it panics], is: [[line, column]]};
//! and paths: {uris: []} -> [[path, URI of the path]], {outputs: [[pattern, root, main]]} -> [path];
//! and roots: {roots: {dirs, root, roots, default, steps}} -> [answer of each step], with a resolver of its own, on real directories.
use serde_json::{json, Value};
use shims::location::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use tinymist_project::{EntryResolver, ProjectResolutionKind};
use tinymist_task::PathPattern;
use tinymist_world::EntryState;
use typst::syntax::{Source, VirtualPath};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for line in std::io::stdin().lock().lines() {
        let o: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(uris) = o["uris"].as_array() {
            let out_ = uris.iter().map(|u| {
                let r = catch_unwind(|| {
                    let path = shims::url_to_path(u.as_str().unwrap().parse().unwrap());
                    (path.to_str().unwrap().to_owned(), shims::path_to_url(&path).map(|u| u.to_string()).unwrap_or_default())
                });
                r.map_or(Value::Null, |(p, u)| json!([p, u]))
            });
            writeln!(out, "{}", Value::Array(out_.collect())).unwrap();
            continue;
        }
        if let Some(outputs) = o["outputs"].as_array() {
            let out_ = outputs.iter().map(|u| {
                let s = |i: usize| u[i].as_str().unwrap();
                let entry = EntryState::new_rooted(Path::new(s(1)).into(), Some(VirtualPath::new(s(2))));
                let r = catch_unwind(|| PathPattern::new(s(0)).substitute(&entry));
                r.map_or(json!("panic"), |p| json!(p.map(|p| p.to_str().unwrap().to_owned())))
            });
            writeln!(out, "{}", Value::Array(out_.collect())).unwrap();
            continue;
        }
        if o["roots"].is_object() {
            let r = catch_unwind(AssertUnwindSafe(|| roots(&o["roots"])));
            writeln!(out, "{}", r.unwrap_or_else(|_| json!(["panic"]))).unwrap();
            continue;
        }
        let enc = if o["enc"] == "utf8" { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
        let source = Source::detached(o["text"].as_str().unwrap());
        let n = |v: &Value| v.as_u64().unwrap() as u32;
        let at = o["at"].as_array().unwrap().iter().map(|p| {
            let p = lsp_types::Position::new(n(&p[0]), n(&p[1]));
            match catch_unwind(AssertUnwindSafe(|| to_typst_range(lsp_types::Range::new(p, p), enc, &source))) {
                Ok(Some(r)) if r.start == r.end => r.start as i64,
                Ok(_) => -1,
                Err(_) => -2,
            }
        });
        let at: Vec<i64> = at.collect();
        let is = o["is"].as_array().unwrap().iter().map(|b| {
            let b = n(b) as usize;
            match catch_unwind(AssertUnwindSafe(|| to_lsp_range(b..b, &source, enc))) {
                Ok(r) if r.start == r.end => json!([r.start.line, r.start.character]),
                _ => json!([-1, -1]),
            }
        });
        let is: Vec<Value> = is.collect();
        writeln!(out, "{}", json!({ "at": at, "is": is })).unwrap();
    }
}

fn roots(o: &Value) -> Value {
    let path = |v: &Value| v.as_str().map(|p| tinymist_std::ImmutPath::from(Path::new(p)));
    for d in o["dirs"].as_array().unwrap() {
        std::fs::create_dir_all(d.as_str().unwrap()).unwrap();
        let _ = std::fs::remove_file(Path::new(d.as_str().unwrap()).join("typst.toml"));
    }
    let resolver = EntryResolver {
        root_path: path(&o["root"]),
        roots: o["roots"].as_array().unwrap().iter().map(|r| path(r).unwrap()).collect(),
        entry: path(&o["default"]),
        ..EntryResolver::default()
    };
    let entry = |e: &EntryState| {
        let lock = |kind| EntryResolver { project_resolution: kind, ..resolver.clone() }.resolve_lock(e);
        json!({
            "root": e.root(),
            "main": e.main().map(|m| m.vpath().as_rootless_path().to_owned()),
            "lock": lock(ProjectResolutionKind::LockDatabase),
            "single": lock(ProjectResolutionKind::SingleFile),
        })
    };
    let steps = o["steps"].as_array().unwrap().iter().map(|s| {
        let f = path(&s["f"]);
        match s["op"].as_str().unwrap() {
            "toml" => {
                let file = Path::new(s["dir"].as_str().unwrap()).join("typst.toml");
                if s["on"] == true {
                    std::fs::write(file, "").unwrap();
                } else {
                    std::fs::remove_file(file).unwrap();
                }
                json!({})
            }
            "ask" => json!({ "answer": resolver.root(f.as_ref()), "entry": entry(&resolver.resolve(f)) }),
            "default" => {
                let d = resolver.resolve_default();
                json!({ "default": d, "entry": entry(&resolver.resolve(d.clone())) })
            }
            "select" => {
                let e = resolver.resolve(f);
                match e.try_select_path_in_workspace(&path(&s["g"]).unwrap()) {
                    Ok(Some(e)) => json!({ "entry": entry(&e) }),
                    Ok(None) => json!({ "entry": null }),
                    Err(_) => json!({ "entry": "error" }),
                }
            }
            o => panic!("unknown {o}"),
        }
    });
    Value::Array(steps.collect())
}
