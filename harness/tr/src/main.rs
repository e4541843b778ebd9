//! Runs the real transport on given bytes, in given pieces, and reports what
//! it delivers; and on given messages, reporting the bytes it writes.

use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use sync_ls::transport::io_transport;
use sync_ls::{dap, lsp, Message, MessageKind};

/// Input arriving in pieces, perhaps interrupted, perhaps failing at the end.
struct Chunks {
    data: Arc<Vec<u8>>,
    pos: usize,
    cuts: Vec<usize>,
    intr: bool,
    pending_intr: bool,
    fail: bool,
}
impl Chunks {
    fn end(&self) -> usize {
        self.cuts.iter().copied().find(|&c| c > self.pos).unwrap_or(self.data.len())
    }
}
impl Read for Chunks {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(out.len());
        out[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Chunks {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pending_intr {
            self.pending_intr = false;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.pos == self.data.len() && self.fail {
            return Err(io::Error::other("broken input"));
        }
        Ok(&self.data[self.pos..self.end()])
    }
    fn consume(&mut self, n: usize) {
        let end = self.end();
        assert!(self.pos + n <= end, "consumed more than the buffer");
        self.pos += n;
        if self.pos == end && n > 0 {
            self.pending_intr = self.intr;
        }
    }
}

/// Output accepting few bytes at a time, visible once flushed.
struct Sink {
    visible: Arc<Mutex<Vec<u8>>>,
    buf: Vec<u8>,
    total: usize,
    short: usize,
    intr: bool,
    flip: bool,
    fail_at: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.flip = !self.flip;
        if self.intr && self.flip {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.total >= self.fail_at {
            return Err(io::Error::other("broken output"));
        }
        let n = b.len().min(self.short).min(self.fail_at - self.total);
        self.buf.extend_from_slice(&b[..n]);
        self.total += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.visible.lock().unwrap().append(&mut self.buf);
        Ok(())
    }
}

fn kind(v: &Value) -> MessageKind {
    if v["kind"] == "dap" {
        MessageKind::Dap
    } else {
        MessageKind::Lsp
    }
}

fn show(m: Message) -> Value {
    match m {
        Message::Lsp(m) => {
            let t = match &m {
                lsp::Message::Request(_) => "req",
                lsp::Message::Response(_) => "resp",
                lsp::Message::Notification(_) => "note",
            };
            json!([t, m])
        }
        Message::Dap(m) => {
            let t = match &m {
                dap::Message::Request(_) => "req",
                dap::Message::Response(_) => "resp",
                dap::Message::Event(_) => "note",
            };
            json!([t, m])
        }
    }
}

fn read_once(k: MessageKind, data: &Arc<Vec<u8>>, cuts: Vec<usize>, intr: bool, fail: bool) -> Value {
    let inp = Chunks { data: data.clone(), pos: 0, cuts, intr, pending_intr: false, fail };
    let (tx, rx, th) = io_transport(k, move || inp, io::sink);
    let msgs: Vec<Value> = rx.into_iter().map(show).collect();
    drop(tx);
    let res = match catch_unwind(AssertUnwindSafe(|| th.join())) {
        Ok(Ok(())) => "end",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    json!({"msgs": msgs, "res": res})
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = io::stdout().lock();
    for line in io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let res = match v["c"].as_str().unwrap() {
            // every way of cutting asked for; results that differ are all reported
            "read" => {
                let data = Arc::new(unhex(v["hex"].as_str().unwrap()));
                let fail = v["fail"].as_bool().unwrap_or(false);
                let mut plans: Vec<(Vec<usize>, bool)> = vec![(vec![], false)];
                if v["bytes"].as_bool().unwrap_or(false) {
                    plans.push(((0..data.len()).collect(), false));
                    plans.push(((0..data.len()).collect(), true));
                }
                if v["splits"].as_bool().unwrap_or(false) {
                    plans.extend((1..data.len()).map(|i| (vec![i], i % 2 == 0)));
                }
                for c in v["cuts"].as_array().into_iter().flatten() {
                    plans.push((serde_json::from_value(c.clone()).unwrap(), false));
                }
                let n = plans.len();
                let mut seen: Vec<(Value, Vec<usize>)> = vec![];
                for (cuts, intr) in plans {
                    let r = read_once(kind(&v), &data, cuts.clone(), intr, fail);
                    if !seen.iter().any(|(x, _)| *x == r) {
                        seen.push((r, cuts.into_iter().take(4).collect()));
                    }
                }
                json!({"n": n, "results": seen})
            }
            "write" => {
                let vis = Arc::new(Mutex::new(vec![]));
                let sink = Sink {
                    visible: vis.clone(),
                    buf: vec![],
                    total: 0,
                    short: v["short"].as_u64().unwrap_or(u64::MAX) as usize,
                    intr: v["intr"].as_bool().unwrap_or(false),
                    flip: false,
                    fail_at: v["fail_at"].as_u64().unwrap_or(u64::MAX) as usize,
                };
                let (tx, rx, th) = io_transport(kind(&v), io::empty, move || sink);
                let mut refused = 0;
                for m in v["msgs"].as_array().unwrap() {
                    let j = m["v"].clone();
                    let msg: Message = match (kind(&v), m["t"].as_str().unwrap()) {
                        (MessageKind::Dap, _) => Message::Dap(serde_json::from_value(j).unwrap()),
                        (_, "req") => lsp::Request::new(
                            serde_json::from_value(j["id"].clone()).unwrap(),
                            j["method"].as_str().unwrap().to_owned(),
                            j["params"].clone(),
                        )
                        .into(),
                        (_, "note") => lsp::Notification::new(
                            j["method"].as_str().unwrap().to_owned(),
                            j["params"].clone(),
                        )
                        .into(),
                        (_, "ok") => lsp::Response::new_ok(
                            serde_json::from_value(j["id"].clone()).unwrap(),
                            j["result"].clone(),
                        )
                        .into(),
                        (_, _) => lsp::Response::new_err(
                            serde_json::from_value(j["id"].clone()).unwrap(),
                            j["error"]["code"].as_i64().unwrap() as i32,
                            j["error"]["message"].as_str().unwrap().to_owned(),
                        )
                        .into(),
                    };
                    if tx.send(msg).is_err() {
                        refused += 1;
                    }
                }
                drop(tx);
                drop(rx);
                let res = match catch_unwind(AssertUnwindSafe(|| th.join())) {
                    Ok(Ok(())) => "end",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                let b = hex(&vis.lock().unwrap());
                json!({"hex": b, "res": res, "refused": refused})
            }
            x => panic!("{x}"),
        };
        writeln!(out, "{res}").unwrap();
        out.flush().unwrap();
    }
}
