//! FingerprintMap: sequential commands, and recorded concurrent histories.
use crate::{bytes, hex};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Barrier;
use tinymist_std::adt::FingerprintMap;
use tinymist_std::hash::Fingerprint;

fn fp(v: &Value) -> Fingerprint {
    let b = bytes(v);
    Fingerprint::from_u128(u128::from_le_bytes(b.try_into().unwrap()))
}
fn fphex(f: Fingerprint) -> String {
    hex(&f.to_u128().to_le_bytes())
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D) >> 20
}

/// `threads` threads do `ops` random operations each; every one is stamped before and after.
fn storm(c: &Value) -> Value {
    let n = c["threads"].as_u64().unwrap();
    let ops = c["ops"].as_u64().unwrap();
    let seed = c["seed"].as_u64().unwrap();
    let keys: Vec<Fingerprint> = c["keys"].as_array().unwrap().iter().map(fp).collect();
    let map: FingerprintMap<u64> = FingerprintMap::new(NonZeroU32::new(c["shards"].as_u64().unwrap() as u32).unwrap());
    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(n as usize);
    let mut hist: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (map, clock, barrier, keys) = (&map, &clock, &barrier, &keys);
                s.spawn(move || {
                    let mut r = (seed + 1) * 7919 + t * 104729 + 1;
                    let mut h = Vec::new();
                    barrier.wait();
                    for i in 0..ops {
                        let k = (rnd(&mut r) % keys.len() as u64) as usize;
                        let f = keys[k];
                        let v = t * 1000 + i + 1;
                        let spin = rnd(&mut r) % 60;
                        let b = clock.fetch_add(1, SeqCst);
                        let (o, a, x) = match rnd(&mut r) % 6 {
                            0 | 1 => {
                                let mut g = map.shard(f).write();
                                for _ in 0..spin {
                                    std::hint::spin_loop();
                                }
                                ("put", v, g.insert(f, v).unwrap_or(0))
                            }
                            2 => ("del", 0, map.shard(f).write().remove(&f).unwrap_or(0)),
                            3 => {
                                // insert if absent
                                let mut g = map.shard(f).write();
                                let e = g.entry(f);
                                for _ in 0..spin {
                                    std::hint::spin_loop();
                                }
                                ("ini", v, *e.or_insert(v))
                            }
                            4 => ("has", 0, map.contains_key(&f) as u64),
                            _ => ("get", 0, map.shard(f).read().get(&f).copied().unwrap_or(0)),
                        };
                        let e = clock.fetch_add(1, SeqCst);
                        h.push(json!({"t": t + 1, "k": k + 1, "o": o, "v": a, "r": x, "b": b, "e": e}));
                    }
                    h
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    hist.sort_by_key(|x| x["b"].as_u64());
    let mut fin: Vec<(String, u64)> = map.into_items().map(|(f, v)| (fphex(f), v)).collect();
    fin.sort();
    json!({"hist": hist, "final": fin})
}

pub fn main() {
    let mut map: FingerprintMap<u64> = FingerprintMap::default();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c["op"].as_str().unwrap() {
            "new" => {
                map = match c["shards"].as_u64() {
                    Some(n) => FingerprintMap::new(NonZeroU32::new(n as u32).unwrap()),
                    None => FingerprintMap::default(),
                };
                json!(true)
            }
            "put" => {
                let f = fp(&c["f"]);
                json!(map.shard(f).write().insert(f, c["v"].as_u64().unwrap()).unwrap_or(0))
            }
            "del" => {
                let f = fp(&c["f"]);
                json!(map.shard(f).write().remove(&f).unwrap_or(0))
            }
            "ini" => {
                let f = fp(&c["f"]);
                json!(*map.shard(f).write().entry(f).or_insert(c["v"].as_u64().unwrap()))
            }
            "get" => {
                let f = fp(&c["f"]);
                json!(map.shard(f).read().get(&f).copied().unwrap_or(0))
            }
            "has" => json!(map.contains_key(&fp(&c["f"])) as u64),
            "slice" => {
                let mut v: Vec<(String, u64)> = map
                    .as_mut_slice()
                    .iter_mut()
                    .flat_map(|s| s.get_mut().iter().map(|(f, v)| (fphex(*f), *v)).collect::<Vec<_>>())
                    .collect();
                v.sort();
                json!(v)
            }
            "items" => {
                let m = std::mem::take(&mut map);
                let mut v: Vec<(String, u64)> = m.into_items().map(|(f, v)| (fphex(f), v)).collect();
                v.sort();
                json!(v)
            }
            "storm" => storm(&c),
            op => panic!("unknown op {op}"),
        }))
        .unwrap_or_else(|_| json!({"panic": true}));
        writeln!(out, "{r}").unwrap();
    }
    out.flush().unwrap();
}
