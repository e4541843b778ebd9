//! Lock files: one JSON order per line, one answer each.
//! {op: "update", dir, docs, tasks, routes, fail, wait} -> {saw, ok, begin, end}; {op: "read", dir} -> {state | error}; {op: "put", dir, text}; {op: "text", dir}.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::time::{Duration, SystemTime};
use tinymist_project::{ApplyProjectTask, LockFile, ProjectInput, ProjectRoute, ResourcePath};

fn now() -> u64 {
    SystemTime::UNIX_EPOCH.elapsed().unwrap().as_micros() as u64
}
/// A document's paths are those the user gives.
fn input(v: &Value) -> ProjectInput {
    let path = |p: &Value| ResourcePath::from_user_sys(Path::new(p.as_str().unwrap()));
    let mut bare = v.clone();
    for k in ["main", "root", "font-paths"] {
        bare.as_object_mut().unwrap().remove(k);
    }
    bare["main"] = json!("file:x");
    let mut d: ProjectInput = serde_json::from_value(bare).unwrap();
    d.main = path(&v["main"]);
    d.root = v["root"].is_string().then(|| path(&v["root"]));
    d.font_paths = v["font-paths"].as_array().into_iter().flatten().map(path).collect();
    d
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let o: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let dir = Path::new(o["dir"].as_str().unwrap());
        let file = dir.join("tinymist.lock");
        let begin = now();
        let mut res = catch_unwind(AssertUnwindSafe(|| match o["op"].as_str().unwrap() {
            "update" => {
                let (mut saw, mut made) = (Value::Null, Value::Null);
                let r = LockFile::update(dir, |l| {
                    saw = serde_json::to_value(&*l).unwrap();
                    for d in o["docs"].as_array().into_iter().flatten() {
                        l.replace_document(input(d));
                    }
                    for t in o["tasks"].as_array().into_iter().flatten() {
                        l.replace_task(serde_json::from_value::<ApplyProjectTask>(t.clone()).unwrap());
                    }
                    for r in o["routes"].as_array().into_iter().flatten() {
                        l.replace_route(serde_json::from_value::<ProjectRoute>(r.clone()).unwrap());
                    }
                    std::thread::sleep(Duration::from_micros(o["wait"].as_u64().unwrap_or(0)));
                    made = serde_json::to_value(&*l).unwrap();
                    if o["fail"] == true {
                        return Err(tinymist_std::error_once!("no"));
                    }
                    Ok(())
                });
                json!({ "saw": saw, "made": made, "ok": r.is_ok(), "error": r.err().map(|e| e.to_string()) })
            }
            "read" => match LockFile::read(dir) {
                Ok(l) => json!({ "state": serde_json::to_value(l).unwrap() }),
                Err(e) => json!({ "error": e.to_string() }),
            },
            "put" => json!({ "ok": std::fs::write(&file, o["text"].as_str().unwrap()).is_ok() }),
            "text" => json!({ "text": std::fs::read_to_string(&file).ok(),
                "at": std::fs::metadata(&file).ok().map(|m| m.modified().unwrap().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as u64) }),
            o => panic!("unknown {o}"),
        }))
        .unwrap_or_else(|e| json!({ "panic": e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())) }));
        res["begin"] = json!(begin);
        res["end"] = json!(now());
        writeln!(out, "{res}").unwrap();
        out.flush().unwrap();
    }
}
