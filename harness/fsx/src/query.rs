//! Threads asking one QueryRef; computations wait at a gate.
//! in:  {"new": "default|ctx|value"}  {"t":1,"op":"call|get|show"}  {"t":1,"op":"finish","r":"ok|err","v":3}
//! out: {"t":1,"e":"start|ret|got|shown", ...}
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use tinymist_std::QueryRef;

/// Distinct allocations, so that a torn or copied value would show.
type Val = Box<[u64; 64]>;
type Q = QueryRef<Val, String, u64>;

fn emit(v: Value) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "{v}").unwrap();
    o.flush().unwrap();
}
fn mk(n: u64) -> Val {
    Box::new([n; 64])
}
fn show(r: Result<&Val, String>) -> Value {
    match r {
        Ok(v) if v.iter().all(|x| *x == v[0]) => json!({"r": "ok", "v": v[0], "at": v.as_ptr() as usize as u64}),
        Ok(_) => json!({"r": "torn"}),
        Err(e) => json!({"r": "err", "v": e.parse::<u64>().unwrap_or(0), "at": 0}),
    }
}

enum Target {
    Ctx(Arc<Q>),
    Unit(Arc<QueryRef<Val, String>>),
}
impl Clone for Target {
    fn clone(&self) -> Self {
        match self {
            Target::Ctx(q) => Target::Ctx(q.clone()),
            Target::Unit(q) => Target::Unit(q.clone()),
        }
    }
}

fn thread(t: u64, q: Target, ops: Receiver<Value>, gate: Receiver<Value>) {
    let body = |ctx: u64| -> Result<Val, String> {
        emit(json!({"t": t, "e": "start", "ctx": ctx}));
        let g = gate.recv().unwrap();
        let v = g["v"].as_u64().unwrap();
        if g["r"] == "ok" {
            Ok(mk(v))
        } else {
            Err(v.to_string())
        }
    };
    while let Ok(c) = ops.recv() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c["op"].as_str().unwrap() {
            "call" => {
                let mut v = match &q {
                    Target::Ctx(q) if c["plain"] == true => show(q.compute(|| body(77))),
                    Target::Ctx(q) => show(q.compute_with_context(body)),
                    Target::Unit(q) if c["plain"] == true => show(q.compute(|| body(77))),
                    Target::Unit(q) => show(q.compute_with_context(|()| body(77))),
                };
                v["t"] = json!(t);
                v["e"] = json!("ret");
                emit(v);
            }
            "get" => {
                let mut v = match &q {
                    Target::Ctx(q) => q.get_uninitialized().map(|r| show(r.as_ref().map_err(Clone::clone))),
                    Target::Unit(q) => q.get_uninitialized().map(|r| show(r.as_ref().map_err(Clone::clone))),
                }
                .unwrap_or_else(|| json!({"r": "none"}));
                v["t"] = json!(t);
                v["e"] = json!("got");
                emit(v);
            }
            "show" => {
                let s = match &q {
                    Target::Ctx(q) => format!("{q:?}"),
                    Target::Unit(q) => format!("{q:?}"),
                };
                emit(json!({"t": t, "e": "shown", "s": s.len() > 0}));
            }
            op => panic!("unknown op {op}"),
        }));
        if r.is_err() {
            emit(json!({"t": t, "e": "panic"}));
        }
    }
}

pub fn main() {
    let target: Mutex<Option<Target>> = Mutex::new(None);
    let mut threads: HashMap<u64, (Sender<Value>, Sender<Value>)> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(k) = c["new"].as_str() {
            threads.clear();
            *target.lock().unwrap() = Some(match k {
                "default" => Target::Unit(Arc::new(QueryRef::default())),
                "ctx" => Target::Ctx(Arc::new(QueryRef::with_context(42))),
                "value" => Target::Ctx(Arc::new(QueryRef::with_value(mk(9)))),
                _ => panic!(),
            });
            emit(json!({"e": "new"}));
            continue;
        }
        let t = c["t"].as_u64().unwrap();
        let (ops, gate) = threads.entry(t).or_insert_with(|| {
            let (o, orx) = channel();
            let (g, grx) = channel();
            let q = target.lock().unwrap().clone().unwrap();
            std::thread::spawn(move || thread(t, q, orx, grx));
            (o, g)
        });
        if c["op"] == "finish" {
            gate.send(c).unwrap();
        } else {
            ops.send(c).unwrap();
        }
    }
}
