//! FingerprintBuilder: many threads resolve items, some of which collide in their fast hash.
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use tinymist_std::hash::FingerprintBuilder;

#[derive(Hash, Clone, Copy, PartialEq, Debug)]
struct One([u64; 2]);
#[derive(Hash, Clone, Copy, PartialEq, Debug)]
struct Two([u64; 2]);
mod other {
    #[derive(Hash, Clone, Copy, PartialEq, Debug)]
    pub struct One(pub [u64; 2]);
}
#[derive(Hash, Clone, Copy, PartialEq, Debug)]
struct Of<T>(T);

#[derive(Clone, Copy, Debug)]
struct Item {
    ty: u64,
    d: [u64; 2],
}

fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn resolve(b: &FingerprintBuilder, i: Item, checked: bool) -> String {
    let f = match (if checked { i.ty } else { 0 }, checked) {
        (_, false) => b.resolve_unchecked(&One(i.d)),
        (0, _) => b.resolve(&One(i.d)),
        (1, _) => b.resolve(&Two(i.d)),
        (2, _) => b.resolve(&other::One(i.d)),
        (3, _) => b.resolve(&Of(One(i.d))),
        (4, _) => b.resolve(&Of(Two(i.d))),
        _ => b.resolve(&i.d),
    };
    format!("{:032x}", f.to_u128())
}

/// Pairs of items that builders used for nothing else give the same fingerprint.
fn collisions(seed: u64, checked: bool, n: usize) -> Vec<[Item; 2]> {
    let mut s = seed;
    let mut seen: HashMap<String, Item> = HashMap::new();
    let mut out = vec![];
    for _ in 0..n {
        let i = Item { ty: if checked { rnd(&mut s) % 6 } else { 0 }, d: [rnd(&mut s), rnd(&mut s)] };
        if let Some(p) = seen.insert(resolve(&FingerprintBuilder::default(), i, checked), i) {
            if p.d != i.d {
                out.push([p, i]);
            }
        }
    }
    out
}

fn round(s: &mut u64, pairs: &[[Item; 2]], checked: bool, threads: usize) -> Value {
    let mut items: Vec<Item> = pairs[rnd(s) as usize % pairs.len()].to_vec();
    if rnd(s) % 3 == 0 {
        items.extend(pairs[rnd(s) as usize % pairs.len()]);
        let near = items[0];
        items.push(Item { ty: near.ty, d: [near.d[0], near.d[1] ^ 1 << (rnd(s) % 64)] });
        if checked {
            items.push(Item { ty: (near.ty + 1 + rnd(s) % 5) % 6, d: near.d });
        }
    }
    let b = FingerprintBuilder::default();
    let go = AtomicUsize::new(0);
    let orders: Vec<Vec<usize>> = (0..threads).map(|_| (0..6).map(|_| rnd(s) as usize % items.len()).collect()).collect();
    let got: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (b, go, items) = (&b, &go, &items);
                sc.spawn(move || {
                    go.fetch_add(1, SeqCst);
                    let mut n = 0;
                    while go.load(SeqCst) < threads {
                        n += 1;
                        if n % 500 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    o.iter().map(|&i| (i, resolve(b, items[i], checked))).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(vec![(0, "panic".into())])).collect()
    });
    let all: BTreeSet<(usize, String)> = got.into_iter().flatten().collect();
    json!({
        "items": items.iter().map(|i| format!("{}:{:x}:{:016x}", i.ty, i.d[0], i.d[1])).collect::<Vec<_>>(),
        "res": all.iter().map(|(i, f)| json!([i + 1, f])).collect::<Vec<_>>(),
        "threads": threads,
    })
}

pub fn main() {
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut s = c["seed"].as_u64().unwrap();
        let checked = c["checked"].as_bool().unwrap();
        let pairs = collisions(s, checked, c["search"].as_u64().unwrap() as usize);
        let n = pairs.len();
        let mut pairs = pairs;
        if pairs.is_empty() {
            pairs.push([Item { ty: 0, d: [1, 2] }, Item { ty: 0, d: [2, 1] }]);
        }
        let rounds: Vec<Value> = (0..c["rounds"].as_u64().unwrap()).map(|_| round(&mut s, &pairs, checked, c["threads"].as_u64().unwrap() as usize)).collect();
        writeln!(out, "{}", json!({"collisions": n, "rounds": rounds})).unwrap();
    }
    out.flush().unwrap();
}
