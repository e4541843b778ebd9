//! One process of the lock checks: threads that take, use and drop file locks.
//! in:  {"root":hex}  {"t":1,"op":"ex|shc|sh|tryex|trysh","f":hex}  {"t":1,"op":"drop","dup":bool}  {"t":1,"op":"read"}  {"t":1,"op":"write","c":hex}
//! out: {"t":1,"e":"got|busy|err|dropped|read|wrote", ...}
use crate::{bytes, hex, path};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use tinymist_std::fs::flock::{FileLock, Filesystem};

fn emit(v: Value) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "{v}").unwrap();
    o.flush().unwrap();
}

fn thread(t: u64, fs: Filesystem, ops: Receiver<Value>) {
    let mut held: Option<FileLock> = None;
    let mut dups = Vec::new();
    while let Ok(c) = ops.recv() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let op = c["op"].as_str().unwrap();
            match op {
                "drop" => {
                    if c["dup"] == true {
                        // a duplicate of the descriptor that outlives the lock
                        dups.push(held.as_ref().unwrap().file().try_clone().unwrap());
                    }
                    held = None;
                    json!({"e": "dropped"})
                }
                "read" => {
                    let l = held.as_mut().unwrap();
                    let mut b = Vec::new();
                    match l.seek(SeekFrom::Start(0)).and_then(|_| l.read_to_end(&mut b)) {
                        Ok(_) => json!({"e": "read", "c": hex(&b), "path": crate::phex(l.path()), "parent": crate::phex(l.parent())}),
                        Err(e) => json!({"e": "ioerr", "m": e.to_string()}),
                    }
                }
                "write" => {
                    let b = bytes(&c["c"]);
                    let l = held.as_mut().unwrap();
                    let r = l.file().set_len(0).and_then(|_| l.seek(SeekFrom::Start(0))).and_then(|_| l.write_all(&b)).and_then(|_| l.flush());
                    match r {
                        Ok(()) => json!({"e": "wrote"}),
                        Err(e) => json!({"e": "ioerr", "m": e.to_string()}),
                    }
                }
                _ => {
                    let f = path(&c["f"]);
                    let r = match op {
                        "ex" => fs.open_rw_exclusive_create(&f, "x").map(Some),
                        "shc" => fs.open_ro_shared_create(&f, "x").map(Some),
                        "sh" => fs.open_ro_shared(&f, "x").map(Some),
                        "tryex" => fs.try_open_rw_exclusive_create(&f),
                        "trysh" => fs.try_open_ro_shared_create(&f),
                        _ => panic!("unknown op {op}"),
                    };
                    match r {
                        Ok(Some(l)) => {
                            held = Some(l);
                            json!({"e": "got"})
                        }
                        Ok(None) => json!({"e": "busy"}),
                        Err(e) => json!({"e": "err", "m": format!("{e:?}")}),
                    }
                }
            }
        }));
        let mut v = r.unwrap_or_else(|_| json!({"e": "panic"}));
        v["t"] = json!(t);
        emit(v);
    }
}

pub fn main() {
    let mut fs = None;
    let mut threads: HashMap<u64, Sender<Value>> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if c["root"].is_string() {
            let mut f = Filesystem::new(path(&c["root"]));
            if c["push"].is_string() {
                f.push(path(&c["push"]));
            }
            if c["join"].is_string() {
                f = f.join(path(&c["join"]));
            }
            fs = Some(f);
            continue;
        }
        let t = c["t"].as_u64().unwrap();
        let s = threads.entry(t).or_insert_with(|| {
            let (s, r) = channel();
            let fs = fs.clone().unwrap();
            std::thread::spawn(move || thread(t, fs, r));
            s
        });
        s.send(c).unwrap();
    }
}
