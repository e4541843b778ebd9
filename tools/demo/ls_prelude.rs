#![allow(dead_code, unused_imports)]
//! A small server on sync-ls and a client driving it over pipes: `demo serve ...` is the server.
use lsp_types::{notification::Notification as Notif, request::Request as Req};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;

#[derive(Serialize, Deserialize, Clone)]
struct P {
    tag: i64,
    ms: u64,
}
macro_rules! req {
    ($t:ident, $m:literal) => {
        struct $t;
        impl Req for $t {
            type Params = P;
            type Result = P;
            const METHOD: &'static str = $m;
        }
        impl dapts::IRequest for $t {
            type Arguments = P;
            type Response = P;
            const COMMAND: &'static str = $m;
        }
    };
}
macro_rules! note {
    ($t:ident, $m:literal) => {
        struct $t;
        impl Notif for $t {
            type Params = P;
            const METHOD: &'static str = $m;
        }
    };
}

struct Client {
    p: Child,
    rx: Receiver<Value>,
    dap: bool,
}
impl Client {
    fn start(args: &[&str]) -> Self {
        let mut p = Command::new(std::env::current_exe().unwrap())
            .arg("serve")
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap();
        let mut out = BufReader::new(p.stdout.take().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            let mut n = 0;
            loop {
                let mut l = String::new();
                if out.read_line(&mut l).unwrap_or(0) == 0 {
                    return;
                }
                if l.trim().is_empty() {
                    break;
                }
                if let Some(v) = l.trim().strip_prefix("Content-Length: ") {
                    n = v.parse().unwrap();
                }
            }
            let mut b = vec![0; n];
            if out.read_exact(&mut b).is_err() {
                return;
            }
            let Ok(v) = serde_json::from_slice(&b) else {
                return;
            };
            if tx.send(v).is_err() {
                return;
            }
        });
        Client { p, rx, dap: args.first() == Some(&"dap") }
    }
    fn raw(&mut self, b: &[u8]) {
        let _ = self.p.stdin.as_mut().unwrap().write_all(b);
        let _ = self.p.stdin.as_mut().unwrap().flush();
    }
    fn send(&mut self, v: Value) {
        let s = v.to_string();
        self.raw(format!("Content-Length: {}\r\n\r\n{s}", s.len()).as_bytes());
    }
    fn request(&mut self, id: i64, m: &str, p: Value) {
        if self.dap {
            self.send(json!({"seq":id,"type":"request","command":m,"arguments":p}))
        } else {
            self.send(json!({"jsonrpc":"2.0","id":id,"method":m,"params":p}))
        }
    }
    fn note(&mut self, m: &str, p: Value) {
        if self.dap {
            self.send(json!({"seq":0,"type":"event","event":m,"body":p}))
        } else {
            self.send(json!({"jsonrpc":"2.0","method":m,"params":p}))
        }
    }
    fn get(&mut self) -> Option<Value> {
        self.rx.recv_timeout(Duration::from_secs(5)).ok()
    }
    fn none(&mut self) -> bool {
        self.rx.recv_timeout(Duration::from_millis(300)).is_err()
    }
    fn ready(&mut self) {
        self.request(1000, "initialize", json!({"tag":0,"ms":0}));
        check(self.get().is_some(), "initialize is answered");
        if !self.dap {
            self.note("initialized", json!({}));
        }
    }
    fn eof(&mut self) {
        drop(self.p.stdin.take());
    }
    fn ended(&mut self) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(10) {
            if let Some(s) = self.p.try_wait().unwrap() {
                return Some(s);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        None
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.p.kill();
        let _ = self.p.wait();
    }
}
#[track_caller]
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED at {}: {what}", std::panic::Location::caller());
        std::process::exit(1);
    }
}
struct Init;
struct Srv {
    client: LspClient,
    tag: i64,
}
fn arg_has(x: &str) -> bool {
    std::env::args().any(|a| a == x)
}
fn arg_val(x: &str) -> String {
    std::env::args().find_map(|a| a.strip_prefix(x).map(|v| v.to_owned())).unwrap_or_default()
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().unwrap();
        let r = serve(rt.handle().clone());
        rt.shutdown_background();
        std::process::exit(if r.is_ok() { 0 } else { 7 });
    }
    demo();
    println!("ok");
}
