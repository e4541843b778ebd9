//! Drives tinymist-l10n from line-delimited JSON commands; its state is that of the process.
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Barrier;
use tinymist_l10n::*;

type Sorted = BTreeMap<String, BTreeMap<String, String>>;

fn leak(v: &Value) -> &'static str {
    Box::leak(v.as_str().unwrap().to_owned().into_boxed_str())
}
fn set(v: &Value) -> TranslationMapSet {
    let s: Sorted = serde_json::from_value(v.clone()).unwrap();
    s.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect()
}
fn sorted(s: TranslationMapSet) -> Sorted {
    s.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect()
}
fn res(r: Result<Value, impl std::fmt::Display>) -> Value {
    match r {
        Ok(v) => json!({"ok": v}),
        Err(e) => json!({"err": e.to_string()}),
    }
}
fn kvs(v: &Value) -> Vec<(String, String)> {
    serde_json::from_value(v.clone()).unwrap()
}
fn arg(v: &Value) -> Arg<'_> {
    match v {
        Value::String(s) => Arg::Str(Cow::Borrowed(s)),
        Value::Number(n) if n.is_i64() => Arg::Int(n.as_i64().unwrap()),
        Value::Number(n) => Arg::Float(n.as_f64().unwrap()),
        _ => panic!(),
    }
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D) >> 20
}

/// Threads select locales and look up messages; each call is stamped before and after.
fn storm(c: &Value) -> Value {
    let n = c["threads"].as_u64().unwrap();
    let ops = c["ops"].as_u64().unwrap();
    let seed = c["seed"].as_u64().unwrap();
    let keys: Vec<&'static str> = c["keys"].as_array().unwrap().iter().map(leak).collect();
    let locs: Vec<&'static str> = c["locales"].as_array().unwrap().iter().map(leak).collect();
    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(n as usize);
    let mut hist: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (clock, barrier, keys, locs) = (&clock, &barrier, &keys, &locs);
                s.spawn(move || {
                    let mut r = (seed + 1) * 7919 + t * 104729 + 1;
                    let mut h = Vec::new();
                    barrier.wait();
                    for _ in 0..ops {
                        let b = clock.fetch_add(1, SeqCst);
                        let x = if rnd(&mut r) % 3 == 0 {
                            let l = (rnd(&mut r) % locs.len() as u64) as usize;
                            let ok = set_locale(locs[l]).is_some();
                            json!({"o": "select", "i": l + 1, "r": if ok { "yes" } else { "no" }})
                        } else {
                            let k = (rnd(&mut r) % keys.len() as u64) as usize;
                            json!({"o": "look", "i": k + 1, "r": t_without_args(keys[k], "the message")})
                        };
                        let e = clock.fetch_add(1, SeqCst);
                        let mut x = x;
                        x["b"] = json!(b);
                        x["e"] = json!(e);
                        h.push(x);
                    }
                    h
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    hist.sort_by_key(|x| x["b"].as_u64());
    json!(hist)
}

fn call(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "load" => res(load_translations(c["text"].as_str().unwrap()).map(|s| json!(sorted(s)))),
        "set" => {
            match c["text"].as_str() {
                Some(t) => match load_translations(t) {
                    Ok(s) => set_translations(s),
                    Err(e) => return json!({"err": e.to_string()}),
                },
                None => set_translations(set(&c["map"])),
            }
            json!(true)
        }
        "select" => json!(set_locale(c["l"].as_str().unwrap()).is_some()),
        "look" => json!(if c["macro"] == true { t!(leak(&c["k"]), leak(&c["m"])) } else { t_without_args(leak(&c["k"]), leak(&c["m"])) }),
        "fmt" => {
            let args: Vec<(&'static str, Arg)> = c["args"].as_array().unwrap().iter().map(|a| (leak(&a[0]), arg(&a[1]))).collect();
            let (k, m) = (leak(&c["k"]), leak(&c["m"]));
            let plain = t_with_args(k, m, &args);
            let names: Vec<&str> = args.iter().map(|a| a.0).collect();
            let v = |i: usize| arg(&c["args"][i][1]);
            let by_macro = match names[..] {
                ["err"] => t!(k, m, err = v(0)),
                ["err", "value"] => t!(k, m, err = v(0), value = v(1)),
                ["value", "err"] => t!(k, m, value = v(0), err = v(1),),
                _ => plain.clone(),
            };
            if by_macro == plain { json!(plain) } else { json!({"plain": plain, "macro": by_macro}) }
        }
        "deserialize" => res(deserialize(c["text"].as_str().unwrap(), c["key_first"] == true).map(|s| json!(sorted(s)))),
        "serialize" => json!(serialize_translations(set(&c["map"]))),
        "update" => {
            let mut s = set(&c["map"]);
            update_translations(kvs(&c["kv"]), &mut s);
            json!(sorted(s))
        }
        "update_disk" => res(update_disk_translations(kvs(&c["kv"]), c["path"].as_str().unwrap().as_ref()).map(|_| json!(true))),
        "debug" => match c["v"].as_str().unwrap().debug_l10n() {
            Arg::Str(s) => json!(s),
            _ => json!(null),
        },
        "storm" => storm(c),
        op => panic!("unknown op {op}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&c))).unwrap_or_else(|_| json!({"panic": true}));
        writeln!(out, "{r}").unwrap();
    }
    out.flush().unwrap();
}
