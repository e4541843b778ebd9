//! A scripted service on the real sync-ls driver, over real stdin/stdout.
//!
//! `ls_srv <lsp|dap> <control fd> <log fd> [flags]`: the control channel drives
//! what the server does on its own (finish asynchronous handlers, send events,
//! requests and notifications); the log channel reports what handlers see.

use std::any::Any;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::sync::OnceLock;

use futures::channel::oneshot;
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;

static LOG: OnceLock<Mutex<File>> = OnceLock::new();
type Owed = HashMap<i64, oneshot::Sender<bool>>;
static ASYNC: OnceLock<Mutex<Owed>> = OnceLock::new();
static LATE: OnceLock<Mutex<HashMap<i64, RequestId>>> = OnceLock::new();
static CLIENT: OnceLock<LspClient> = OnceLock::new();

fn log(v: Value) {
    let mut f = LOG.get().unwrap().lock();
    let mut s = v.to_string();
    s.push('\n');
    let _ = f.write_all(s.as_bytes());
}

/// Perturbs the schedule at the driver's own log statements.
struct Jitter(u64);
thread_local!(static RNG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
impl log::Log for Jitter {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::hash::{Hash, Hasher};
        if !r.target().starts_with("sync_ls") {
            return;
        }
        let x = RNG.with(|c| {
            let mut x = c.get();
            if x == 0 {
                let mut h = std::hash::DefaultHasher::new();
                std::thread::current().id().hash(&mut h);
                x = (h.finish() ^ self.0.wrapping_mul(0x9e3779b97f4a7c15)) | 1;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c.set(x);
            x
        });
        match x % 8 {
            0 => std::thread::sleep(std::time::Duration::from_micros(x / 8 % 400)),
            1 | 2 => std::thread::yield_now(),
            _ => {}
        }
    }
    fn flush(&self) {}
}

fn low_priority(f: bool) {
    if f {
        // This thread only.
        unsafe { libc::setpriority(libc::PRIO_PROCESS, 0, 19) };
    }
}

fn failed(tag: i64) -> ResponseError {
    ResponseError {
        code: -32803,
        message: format!("failed {tag}"),
        data: None,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct P {
    tag: i64,
    mode: String,
    #[serde(flatten)]
    rest: Map<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct R {
    tag: i64,
    mode: String,
    #[serde(flatten)]
    rest: Map<String, Value>,
}

fn serve(h: &str, p: &P) -> SchedulableResponse<R> {
    serve_with(h, p, Value::Null)
}

fn serve_with(h: &str, p: &P, args: Value) -> SchedulableResponse<R> {
    // What the control channel needs is in place before the call is reported.
    let (tx, rx) = oneshot::channel();
    if p.mode == "async" {
        ASYNC.get().unwrap().lock().insert(p.tag, tx);
    }
    log(json!({"e":"call","h":h,"tag":p.tag,"mode":p.mode,"rest":p.rest,"args":args}));
    let r = R {
        tag: p.tag,
        mode: p.mode.clone(),
        rest: p.rest.clone(),
    };
    match p.mode.as_str() {
        "ok" => just_ok(r),
        "err" => just_result(Err(failed(p.tag))),
        "reject" => Err(failed(p.tag)),
        "async" => {
            just_future(async move {
                match rx.await {
                    Ok(true) => Ok(r),
                    Ok(false) => Err(failed(r.tag)),
                    Err(_) => std::future::pending().await,
                }
            })
        }
        // Free running: finishes by itself, after `tag % 7` milliseconds.
        "free" => just_future(async move {
            tokio::time::sleep(std::time::Duration::from_millis((r.tag % 7) as u64)).await;
            log(json!({"e":"done","tag":r.tag}));
            if r.tag % 5 == 0 {
                Err(failed(r.tag))
            } else {
                Ok(r)
            }
        }),
        m => panic!("harness: mode {m}"),
    }
}

fn serve_json(h: &str, v: Value, args: Value) -> SchedulableResponse<Value> {
    let p: P = serde_json::from_value(v).expect("harness: P");
    use futures::future::MaybeDone::*;
    Ok(match serve_with(h, &p, args)? {
        Done(r) => Done(r.map(|r| serde_json::to_value(r).unwrap())),
        Future(f) => Future(Box::pin(async move {
            f.await.map(|r| serde_json::to_value(r).unwrap())
        })),
        Gone => Gone,
    })
}

fn raw(h: &str, id: RequestId, v: &Value, args: Value) -> ScheduledResult {
    let p: P = serde_json::from_value(v.clone()).expect("harness: P");
    if p.mode == "late" {
        LATE.get().unwrap().lock().insert(p.tag, id.clone());
    }
    log(json!({"e":"call","h":h,"tag":p.tag,"mode":p.mode,"id":id,"rest":p.rest,"args":args}));
    match p.mode.as_str() {
        "null" => Ok(None),
        "late" => Ok(Some(())),
        "rawerr" => Err(failed(p.tag)),
        m => panic!("harness: mode {m}"),
    }
}

struct Svc {
    tag: i64,
}
struct InitArgs {
    secret: i64,
}
#[derive(Debug, Deserialize)]
struct InitParams {
    tag: i64,
    mode: String,
    #[serde(flatten)]
    rest: Map<String, Value>,
}

impl Initializer for InitArgs {
    type I = InitParams;
    type S = Svc;
    fn initialize(self, p: InitParams) -> (Svc, AnySchedulableResponse) {
        assert_eq!(self.secret, 4242);
        let p2 = P {
            tag: p.tag,
            mode: p.mode,
            rest: p.rest,
        };
        let v = serde_json::to_value(&p2).unwrap();
        (Svc { tag: p.tag }, serve_json("init", v, Value::Null))
    }
}

// Note: handlers are plain fns.
fn h_req(_: &mut Svc, p: P) -> SchedulableResponse<R> {
    serve("req", &p)
}
fn h_raw(_: &mut Svc, id: RequestId, v: Value) -> ScheduledResult {
    raw("raw", id, &v, Value::Null)
}
fn h_treq(_: &mut Svc, id: RequestId, p: P) -> ScheduledResult {
    raw("treq", id, &serde_json::to_value(p).unwrap(), Value::Null)
}
fn h_shutdown(_: &mut Svc, p: P) -> SchedulableResponse<Option<R>> {
    use futures::future::MaybeDone::*;
    Ok(match serve("shutdown", &p)? {
        Done(r) => Done(r.map(|_| None)),
        Future(f) => Future(Box::pin(async move { f.await.map(Some) })),
        Gone => Gone,
    })
}
fn h_cmd(_: &mut Svc, a: Vec<Value>) -> SchedulableResponse<Value> {
    serve_json("cmd", a[0].clone(), json!(a))
}
fn h_cmd2(_: &mut Svc, a: Vec<Value>) -> SchedulableResponse<Value> {
    serve_json("cmd2", a[0].clone(), json!(a))
}
fn h_rawcmd(_: &mut Svc, id: RequestId, a: Vec<Value>) -> ScheduledResult {
    raw("rawcmd", id, &a[0], json!(a))
}
fn h_res(_: &mut Svc, a: Vec<Value>) -> AnySchedulableResponse {
    assert_eq!(a[0], json!("/res/a"));
    serve_json("res", a[1].clone(), json!(a))
}
fn h_rawres(_: &mut Svc, id: RequestId, a: Vec<Value>) -> ScheduledResult {
    assert_eq!(a[0], json!("/res/raw"));
    raw("rawres", id, &a[1], json!(a))
}
fn h_note(_: &mut Svc, p: P) -> LspResult<()> {
    log(json!({"e":"call","h":"note","tag":p.tag,"mode":p.mode,"rest":p.rest}));
    match p.mode.as_str() {
        "ok" => Ok(()),
        _ => Err(failed(p.tag)),
    }
}
fn h_rawnote(_: &mut Svc, v: Value) -> LspResult<()> {
    log(json!({"e":"call","h":"rawnote","tag":v["tag"],"mode":v["mode"],"all":v}));
    Ok(())
}
fn h_initialized(_: &mut Svc, v: Value) -> LspResult<()> {
    log(json!({"e":"call","h":"initialized","tag":v["tag"],"mode":v["mode"],"all":v}));
    Ok(())
}

struct Ev(i64);
struct EvErr(i64);
struct EvUnknown;

fn on_event(k: &str, tag: i64, mut s: ServiceState<InitArgs, Svc>) {
    let (seen, svc) = match &mut s {
        ServiceState::Uninitialized(Some(a)) if a.secret == 4242 => ("args", -1),
        ServiceState::Uninitialized(_) => ("noargs", -1),
        ServiceState::Ready(s) => ("service", s.tag),
    };
    log(json!({"e":"event","k":k,"tag":tag,"s":seen,"svc":svc}));
}

macro_rules! req {
    ($n:ident, $m:literal, $p:ty, $r:ty) => {
        enum $n {}
        impl lsp_types::request::Request for $n {
            type Params = $p;
            type Result = $r;
            const METHOD: &'static str = $m;
        }
        impl dapts::IRequest for $n {
            type Arguments = $p;
            type Response = $r;
            const COMMAND: &'static str = $m;
        }
    };
}
req!(TReq, "t/req", P, R);
req!(TReq2, "t/req2", P, R);
req!(TRaw, "t/raw", P, R);
req!(TTreq, "t/treq", P, R);
req!(Shutdown, "shutdown", P, Option<R>);
req!(Disconnect, "disconnect", P, Option<R>);
req!(SrvReq, "srv/req", P, R);

enum TNote {}
impl lsp_types::notification::Notification for TNote {
    type Params = P;
    const METHOD: &'static str = "t/note";
}
enum TRawNote {}
impl lsp_types::notification::Notification for TRawNote {
    type Params = P;
    const METHOD: &'static str = "t/rawnote";
}
enum Initialized {}
impl lsp_types::notification::Notification for Initialized {
    type Params = P;
    const METHOD: &'static str = "initialized";
}
enum SrvNote {}
impl lsp_types::notification::Notification for SrvNote {
    type Params = P;
    const METHOD: &'static str = "srv/note";
}
impl dapts::IEvent for SrvNote {
    type Body = P;
    const EVENT: &'static str = "srv/note";
}

fn h_req2(_: &mut Svc, p: P) -> SchedulableResponse<R> {
    serve("req2", &p)
}

struct Flags(Vec<String>);
impl Flags {
    fn has(&self, f: &str) -> bool {
        self.0.iter().any(|x| x == f)
    }
    fn val(&self, f: &str) -> String {
        self.0
            .iter()
            .find_map(|x| x.strip_prefix(f).and_then(|x| x.strip_prefix('=')))
            .unwrap_or_default()
            .to_owned()
    }
}

/// The payload a message of this tag carries, of very different sizes.
fn pad(prefix: &str, tag: i64) -> String {
    let n = match tag {
        t if t % 1_000_000 == 999_999 => 60_000,
        t if t < 1_000_000 => 0,
        t if t % 17 == 0 => 4_000,
        t if t % 7 == 0 => 300,
        t => t % 3,
    };
    prefix.to_owned() + &"\u{e9}\r\n\"{".repeat(n as usize)
}

fn send_note(is_dap: bool, tag: i64) {
    let c = CLIENT.get().unwrap();
    let p = P {
        tag,
        mode: pad("n", tag),
        rest: Map::new(),
    };
    if is_dap {
        c.to_typed::<Svc>().send_dap_event::<SrvNote>(p);
    } else {
        c.send_notification::<SrvNote>(&p);
    }
}

fn send_req(tag: i64) {
    let c = CLIENT.get().unwrap();
    let p = P {
        tag,
        mode: pad("q", tag),
        rest: Map::new(),
    };
    let cont = move |s: &mut Svc, r: lsp::Response| {
        log(json!({"e":"cont","tag":tag,"svc":s.tag,"id":r.id,"result":r.result,
            "error":r.error.map(|e| e.code)}));
    };
    if tag % 2 == 0 {
        c.to_typed::<Svc>().send_lsp_request::<SrvReq>(p, cont);
    } else {
        c.send_lsp_request_::<SrvReq>(p, move |s: &mut dyn Any, r| {
            cont(s.downcast_mut::<Svc>().expect("service"), r)
        });
    }
}

fn answer(tag: i64, ok: bool) {
    if let Some(tx) = ASYNC.get().unwrap().lock().remove(&tag) {
        let _ = tx.send(ok);
        return;
    }
    let id = LATE.get().unwrap().lock().remove(&tag);
    if let Some(id) = id {
        let r = R {
            tag,
            mode: "late".into(),
            rest: Map::new(),
        };
        let r = if ok { Ok(r) } else { Err(failed(tag)) };
        CLIENT.get().unwrap().respond_result(id, r);
    }
}

fn control(ctl: File, is_dap: bool) {
    for line in BufReader::new(ctl).lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).expect("harness: control");
        let c = CLIENT.get().unwrap();
        let tag = v["tag"].as_i64().unwrap_or(0);
        let pre = v["pre"].as_bool().unwrap_or(false);
        if pre {
            log(json!({"e":"ctl","seq":v["seq"]}));
        }
        match v["c"].as_str().unwrap() {
            "answer" => answer(tag, v["ok"].as_bool().unwrap()),
            "again" => {
                let id: RequestId = serde_json::from_value(v["id"].clone()).unwrap();
                match v["how"].as_i64().unwrap_or(0) {
                    0 => c.respond_result(id, Ok(R { tag, mode: "again".into(), rest: Default::default() })),
                    1 => c.respond_result::<R>(id, Err(failed(tag))),
                    _ => {
                        if is_dap {
                            let i = v["id"].as_i64().unwrap_or(0);
                            c.respond(id, dap::Response::success(i, json!({"again":tag})).into())
                        } else {
                            c.respond_lsp(lsp::Response::new_ok(id, json!({"again":tag})))
                        }
                    }
                }
            }
            "spawnnote" => {
                std::thread::spawn(move || send_note(is_dap, tag));
            }
            "srvreq" => send_req(tag),
            "srvnote" => send_note(is_dap, tag),
            "event" => match v["k"].as_str().unwrap() {
                "ev" if tag % 2 == 0 => c.send_event(Ev(tag)),
                "ev" => c.to_typed::<Svc>().send_event(Ev(tag)),
                "everr" => c.send_event(EvErr(tag)),
                _ => c.send_event(EvUnknown),
            },
            // n threads, m messages each, of every kind a thread may send
            "storm" => {
                let n = v["n"].as_i64().unwrap();
                let m = v["m"].as_i64().unwrap();
                let reqs = v["reqs"].as_bool().unwrap_or(false);
                let evs = v["evs"].as_bool().unwrap_or(false);
                let low = v["low"].as_bool().unwrap_or(false);
                let base = v["base"].as_i64().unwrap_or(0);
                let ths: Vec<_> = (0..n)
                    .map(|t| {
                        std::thread::spawn(move || {
                            low_priority(low);
                            for i in 0..m {
                                let tag = (t + 1) * 1_000_000 + base + i;
                                if evs && i % 3 == 0 {
                                    CLIENT.get().unwrap().send_event(Ev(tag));
                                } else if reqs && i % 2 == 1 {
                                    send_req(tag);
                                } else {
                                    send_note(is_dap, tag);
                                }
                            }
                        })
                    })
                    .collect();
                for t in ths {
                    if t.join().is_err() {
                        log(json!({"e":"panic","msg":"storm thread"}));
                    }
                }
            }
            // n threads answer one request at the same time
            "race" => {
                let tag = v["tag"].as_i64().unwrap();
                let n = v["n"].as_i64().unwrap();
                let tx = ASYNC.get().unwrap().lock().remove(&tag);
                let id: RequestId = serde_json::from_value(v["id"].clone()).unwrap();
                let bar = std::sync::Arc::new(std::sync::Barrier::new(n as usize));
                let mut tx = tx;
                let ths: Vec<_> = (0..n)
                    .map(|t| {
                        let (id, bar, tx) = (id.clone(), bar.clone(), tx.take());
                        std::thread::spawn(move || {
                            bar.wait();
                            if let Some(tx) = tx {
                                let _ = tx.send(true);
                            } else {
                                let r = R { tag, mode: format!("race{t}"), rest: Default::default() };
                                CLIENT.get().unwrap().respond_result(id, Ok(r));
                            }
                        })
                    })
                    .collect();
                for t in ths {
                    if t.join().is_err() {
                        log(json!({"e":"panic","msg":"race thread"}));
                    }
                }
            }
            x => panic!("harness: control {x}"),
        }
        if !pre {
            log(json!({"e":"ctl","seq":v["seq"]}));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let is_dap = args[1] == "dap";
    let fd = |i: usize| unsafe { File::from_raw_fd(args[i].parse().unwrap()) };
    let ctl = fd(2);
    LOG.set(Mutex::new(fd(3))).unwrap();
    ASYNC.set(Default::default()).ok().unwrap();
    LATE.set(Default::default()).ok().unwrap();
    let flags = Flags(args[4..].to_vec());

    std::panic::set_hook(Box::new(|i| {
        log(json!({"e":"panic","msg":i.to_string()}));
    }));

    if flags.has("spin") {
        std::thread::spawn(|| loop {
            std::hint::spin_loop()
        });
    }
    if let Ok(seed) = flags.val("jitter").parse() {
        log::set_logger(Box::leak(Box::new(Jitter(seed)))).unwrap();
        log::set_max_level(log::LevelFilter::Debug);
    }

    let mirror = MirrorArgs {
        mirror: flags.val("mirror"),
        replay: flags.val("replay"),
    };
    let replay = flags.has("is-replay");
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .enable_time()
        .build()
        .unwrap();
    let handle = rt.handle().clone();
    let mut linger = None;

    let res = if is_dap {
        with_stdio_transport::<DapMessage>(mirror, |conn| {
            let root = LspClientRoot::new(handle, conn.sender);
            CLIENT.set(root.weak()).ok().unwrap();
            let th = std::thread::spawn(move || control(ctl, true));
            let mut b = DapBuilder::new(InitArgs { secret: 4242 }, root.weak())
                .with_event(&Ev(0), |s, e: Ev| {
                    on_event("ev", e.0, s);
                    Ok(())
                })
                .with_event(&EvErr(0), |s, e: EvErr| {
                    on_event("everr", e.0, s);
                    anyhow::bail!("event error {}", e.0)
                })
                .with_request::<TReq>(h_req)
                .with_request::<TReq2>(h_req2)
                .with_raw_request::<TRaw>(h_raw)
                .with_request_::<TTreq>(h_treq);
            // The DAP builder has no registration of client events.
            b.notif_handlers.insert(
                "t/note",
                Box::new(|s, v| {
                    h_note(
                        s,
                        serde_json::from_value(v).map_err(|e| invalid_request(e))?,
                    )
                }),
            );
            b.notif_handlers.insert("t/rawnote", Box::new(h_rawnote));
            if !flags.has("no-shutdown") {
                b = b.with_request::<Disconnect>(h_shutdown);
            }
            log(json!({"e":"up"}));
            let r = b.build().start(conn.receiver, replay);
            log(json!({"e":"return","r":if r.is_ok() {"ok"} else {"err"},
                "msg":r.as_ref().err().map(|e| e.to_string())}));
            linger = Some(th);
            r
        })
    } else {
        with_stdio_transport::<LspMessage>(mirror, |conn| {
            let root = LspClientRoot::new(handle, conn.sender);
            CLIENT.set(root.weak()).ok().unwrap();
            let th = std::thread::spawn(move || control(ctl, false));
            let mut b = LspBuilder::new(InitArgs { secret: 4242 }, root.weak())
                .with_event(&Ev(0), |s, e: Ev| {
                    on_event("ev", e.0, s);
                    Ok(())
                })
                .with_event(&EvErr(0), |s, e: EvErr| {
                    on_event("everr", e.0, s);
                    anyhow::bail!("event error {}", e.0)
                })
                .with_request::<TReq>(h_req)
                .with_request::<TReq2>(h_req2)
                .with_raw_request::<TRaw>(h_raw)
                .with_request_::<TTreq>(h_treq)
                .with_command("t.cmd", h_cmd)
                .with_command("t.cmd2", h_cmd2)
                .with_command_("t.rawcmd", h_rawcmd)
                .with_resource("/res/a", h_res)
                .with_resource_(std::path::Path::new("/res/raw").into(), h_rawres)
                .with_notification::<TNote>(h_note)
                .with_notification_::<TRawNote>(h_rawnote)
                .with_notification_::<Initialized>(h_initialized);
            if !flags.has("no-shutdown") {
                b = b.with_request::<Shutdown>(h_shutdown);
            }
            log(json!({"e":"up"}));
            let r = b.build().start(conn.receiver, replay);
            log(json!({"e":"return","r":if r.is_ok() {"ok"} else {"err"},
                "msg":r.as_ref().err().map(|e| e.to_string())}));
            linger = Some(th);
            r
        })
    };
    log(json!({"e":"transport","r":if res.is_ok() {"ok"} else {"err"},
        "msg":res.as_ref().err().map(|e| e.to_string())}));
    // The connection is closed now; clients that remain must do no harm.
    if flags.has("linger") {
        let _ = linger.unwrap().join();
        log(json!({"e":"lingered"}));
    }
    rt.shutdown_background();
    log(json!({"e":"exit"}));
    std::process::exit(0);
}
