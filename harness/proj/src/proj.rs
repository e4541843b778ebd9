//! Drives the server's projects: behaviours come in as JSON, one a line, each a list of steps; what was seen comes out.
//! The editor, the disk, the watcher's notices, the compilations, the events to the main loop and the two actors move only when a step
//! says so.
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;

use crossbeam_channel::Receiver;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};
use notify::event::*;
use serde_json::{json, Value};
use shims::{CompileWatcher, LspWorldExt, PositionEncoding};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::{LspClientRoot, LspMessage, Message};
use tinymist_project::{update_lock, CompiledArtifact, EntryResolver, ExportTarget, Interrupt, LspInterrupt, ProjectInsId, ProjectResolutionKind, TaskWhen};
use tinymist_server::actor::editor::{EditorActor, EditorRequest};
use tinymist_server::task::ExportUserConfig;
use tinymist_server::{Config, ConstConfig, LintFeat, ServerState};
use tinymist_std::typst::TypstDocument;
use tinymist_std::ImmutPath;
use tinymist_task::{ExportPdfTask, ExportTask, ProjectTask, GATE, GOES};
use tinymist_world::{EntryReader, TaskInputs};
use tokio::runtime::Runtime;

struct Sys {
    main: Runtime,
    editor: Runtime,
    dir: PathBuf,
    server: ServerState,
    _root: LspClientRoot,
    events: Receiver<Box<dyn Any + Send>>,
    sent: Receiver<Message>,
    diags: BTreeMap<String, BTreeMap<String, usize>>,
    published: usize,
    status: Value,
    previews: HashMap<String, Arc<CompileWatcher>>,
    seen: Vec<Value>,
    /// Tasks that are always there.
    tasks: usize,
    words: Value,
}

fn runtime() -> Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
fn idle(rt: &Runtime) {
    rt.block_on(async {
        for _ in 0..64 {
            tokio::task::yield_now().await;
        }
    });
}
/// The sending half of a connection, for its marker only.
fn template() -> sync_ls::TConnectionTx<LspMessage> {
    static T: std::sync::OnceLock<sync_ls::TConnectionTx<LspMessage>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut taken = None;
        let args = MirrorArgs { replay: "/dev/null".into(), ..Default::default() };
        with_stdio_transport::<LspMessage>(args, |conn| {
            let mut tx = conn.sender;
            (tx.event, tx.lsp) = (crossbeam_channel::unbounded().0, crossbeam_channel::unbounded().0);
            taken = Some(tx);
            Ok(())
        })
        .unwrap();
        taken.unwrap()
    })
    .clone()
}
/// Whether exports wait to be let go.
fn hold(on: bool) {
    GATE.lock().unwrap().open = !on;
    GOES.notify_all();
}
fn brief(m: &str) -> String {
    let m = if m.starts_with("file not found") { "missing" } else { m };
    m.to_owned()
}

impl Sys {
    fn new(dir: &Path, cfg: &Value) -> Self {
        let (main, editor) = (runtime(), runtime());
        let (etx, events) = crossbeam_channel::unbounded();
        let (ltx, sent) = crossbeam_channel::unbounded();
        let mut conn = template();
        (conn.event, conn.lsp) = (etx, ltx);
        let root = LspClientRoot::new::<LspMessage>(main.handle().clone(), conn);
        let client = root.weak();
        let when = |v: &Value| match v.as_str() {
            Some("type") => TaskWhen::OnType,
            Some("save") => TaskWhen::OnSave,
            Some("title") => TaskWhen::OnDocumentHasTitle,
            _ => TaskWhen::Never,
        };
        hold(false);
        let config = Config {
            const_config: ConstConfig {
                position_encoding: if cfg["enc"] == "utf8" { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 },
                ..Default::default()
            },
            entry_resolver: EntryResolver {
                roots: vec![dir.into()],
                entry: cfg["main"].as_str().map(|f| dir.join(f).as_path().into()),
                ..Default::default()
            },
            has_default_entry_path: cfg["main"].is_string(),
            support_html_in_markdown: false,
            completion: Default::default(),
            color_theme: None,
            periscope_args: None,
            lint: LintFeat(when(&cfg["lint"])),
            export_target: ExportTarget::Paged,
            export: ExportUserConfig {
                export_target: ExportTarget::Paged,
                task: ProjectTask::ExportPdf(ExportPdfTask {
                    export: ExportTask { when: when(&cfg["export"]), output: None, transform: vec![] },
                    pdf_standards: vec![],
                    creation_timestamp: None,
                }),
                count_words: cfg["words"] == true,
            },
        };
        let (editor_tx, editor_rx) = tokio::sync::mpsc::unbounded_channel::<EditorRequest>();
        let server = ServerState::new(client.to_typed(), config, editor_tx);
        editor.handle().spawn(EditorActor::new(client, editor_rx, true).run());
        let mut sys = Sys {
            main,
            editor,
            dir: dir.to_owned(),
            server,
            _root: root,
            events,
            sent,
            diags: Default::default(),
            published: 0,
            status: Value::Null,
            previews: Default::default(),
            seen: vec![],
            tasks: 0,
            words: Value::Null,
        };
        if cfg["start"] != false {
            sys.server.reload_projects().unwrap();
        }
        // The projects before those of the configuration go.
        if let Some(j) = rayon::pending().checked_sub(1).and_then(rayon::take) {
            j();
        }
        idle(&sys.main);
        sys.tasks = sys.alive();
        sys
    }
    fn alive(&self) -> usize {
        self.main.metrics().num_alive_tasks()
    }
    /// Lets one export (or count of words) that has begun go on, and waits until it is done.
    fn export(&mut self, n: usize) -> bool {
        let before = {
            let mut g = GATE.lock().unwrap();
            if g.queue.is_empty() {
                return false;
            }
            let (n, waiting) = (n.min(g.queue.len() - 1), g.queue.len());
            let it = g.queue[n];
            g.go.push(it);
            GOES.notify_all();
            (self.alive(), waiting, it)
        };
        let t = std::time::Instant::now();
        while t.elapsed() < Duration::from_secs(10) {
            self.settle_exports();
            let g = GATE.lock().unwrap();
            if !g.queue.contains(&before.2) && (self.alive() + before.1 <= before.0 + g.queue.len()) {
                break;
            }
        }
        true
    }
    fn settle_exports(&self) {
        idle(&self.main);
        std::thread::sleep(Duration::from_micros(300));
    }
    fn path(&self, v: &Value) -> ImmutPath {
        self.dir.join(v.as_str().unwrap()).as_path().into()
    }
    fn name(&self, p: &str) -> String {
        let p = p.strip_prefix("file://").unwrap_or(p);
        p.strip_prefix(self.dir.to_str().unwrap()).map(|p| p.trim_start_matches('/')).unwrap_or(p).to_owned()
    }
    /// Hands the main loop its next event.
    fn deliver(&mut self) -> bool {
        let Ok(e) = self.events.try_recv() else { return false };
        if let Ok(i) = e.downcast::<LspInterrupt>() {
            if let Interrupt::Compiled(art) = &*i {
                let text = match &art.doc {
                    Some(TypstDocument::Paged(d)) => json!(d.text.as_str()),
                    _ => Value::Null,
                };
                self.seen.push(json!({ "result": art.id().to_string(), "rev": art.world().revision().get(), "text": text,
                    "errors": art.diagnostics().map(|d| brief(&d.message)).collect::<Vec<_>>() }));
            }
            self.server.project.interrupt(*i);
        }
        true
    }
    fn editor_turn(&mut self) {
        idle(&self.editor);
        while let Ok(m) = self.sent.try_recv() {
            let Message::Lsp(LspMessage::Notification(v)) = m else { continue };
            let p = &v.params;
            match Some(v.method.as_str()) {
                Some("textDocument/publishDiagnostics") => {
                    let mut ms = BTreeMap::new();
                    for d in p["diagnostics"].as_array().unwrap() {
                        *ms.entry(brief(d["message"].as_str().unwrap())).or_default() += 1;
                    }
                    let f = self.name(p["uri"].as_str().unwrap());
                    self.published += 1;
                    self.seen.push(json!({ "publish": f, "diags": ms }));
                    if ms.is_empty() {
                        self.diags.remove(&f);
                    } else {
                        self.diags.insert(f, ms);
                    }
                }
                Some("tinymist/compileStatus") => {
                    self.words = p["wordsCount"]["words"].clone();
                    self.status = json!([p["status"], p["path"]]);
                    self.seen.push(json!({ "status": self.status }));
                }
                _ => {}
            }
        }
    }
    fn quiesce(&mut self) -> usize {
        let mut rounds = 0;
        let mut calm = false;
        hold(false);
        loop {
            rounds += 1;
            idle(&self.main);
            let mut busy = false;
            while self.deliver() {
                busy = true;
                idle(&self.main);
            }
            while let Some(j) = rayon::take(0) {
                busy = true;
                j();
            }
            let t = std::time::Instant::now();
            while calm && self.alive() > self.tasks && t.elapsed() < Duration::from_secs(20) {
                busy = true;
                self.settle_exports();
            }
            if t.elapsed() >= Duration::from_secs(20) {
                return 999;
            }
            self.editor_turn();
            if rounds > 200 {
                break;
            }
            if busy {
                calm = false;
                continue;
            }
            if calm {
                break;
            }
            // (The exports are over then, too.)
            // Let a file that may be being rewritten settle.
            self.recheck();
            calm = true;
        }
        rounds
    }
    fn recheck(&mut self) {
        for _ in 0..2 {
            self.main.block_on(async { tokio::time::sleep(Duration::from_millis(52)).await });
            idle(&self.main);
        }
    }
    fn exports(&self) -> BTreeMap<String, String> {
        let all = std::fs::read_dir(&self.dir).unwrap().map(|e| e.unwrap().path());
        all.filter(|p| p.extension().is_some_and(|e| e == "pdf"))
            .map(|p| (self.name(p.with_extension("").to_str().unwrap()), std::fs::read_to_string(p).unwrap()))
            .collect()
    }
    /// Which document is the main one, and where the user is.
    fn look_main(&self) -> Value {
        let p = &self.server.project.compiler.primary.verse;
        let root = p.entry_state().workspace_root().map(|r| self.name(r.to_str().unwrap()));
        json!({ "main": p.entry_file().and_then(|e| e.to_err().ok()).map(|e| self.name(e.to_str().unwrap())), "root": root,
            "focus": self.server.focusing.as_ref().map(|p| self.name(p.to_str().unwrap())),
            "pos": self.server.implicit_position.map(|p| p.line) })
    }
    fn look(&mut self) -> Value {
        let dir = self.dir.clone();
        let mut ps = serde_json::Map::new();
        for p in self.server.project.compiler.projects() {
            let (text, errs, rev) = match &p.ext.last_compilation {
                Some(a) => (
                    match &a.doc {
                        Some(TypstDocument::Paged(d)) => json!(d.text.as_str()),
                        _ => Value::Null,
                    },
                    a.diagnostics().map(|d| brief(&d.message)).collect::<Vec<_>>(),
                    a.world().revision().get(),
                ),
                None => (json!("never"), vec![], 0),
            };
            let entry = p.verse.entry_state().main().map(|m| m.vpath().as_rootless_path().to_str().unwrap().to_owned());
            ps.insert(p.id.to_string(), json!({ "entry": entry, "text": text, "errs": errs, "rev": rev, "compiling": p.ext.is_compiling }));
        }
        let watched: BTreeSet<String> = notify::watched()
            .iter()
            .map(|p| p.strip_prefix(&dir).unwrap_or(p).to_str().unwrap().to_owned())
            .collect();
        let previews: BTreeMap<_, _> = self
            .previews
            .iter()
            .map(|(id, w)| {
                let view = w.views.lock().last().cloned();
                let text = view.map(|v| match &v.artifact().doc {
                    Some(TypstDocument::Paged(d)) => json!(d.text.as_str()),
                    _ => Value::Null,
                });
                (id.clone(), json!({ "text": text, "status": w.statuses.lock().last().map(|s| format!("{s:?}")) }))
            })
            .collect();
        json!({ "projects": ps, "watched": watched, "diags": self.diags, "status": self.status, "previews": previews,
            "exports": self.exports(), "words": self.words,
            "focus": self.server.focusing.as_ref().map(|p| self.name(p.to_str().unwrap())) })
    }
    fn step(&mut self, s: &Value) -> Value {
        let mut out = json!({});
        match s["op"].as_str().unwrap() {
            "open" => {
                let path = self.path(&s["f"]);
                self.server.create_source(path.clone(), s["t"].as_str().unwrap().into()).unwrap();
                self.server.implicit_focus_entry(|| Some(path), 'o');
            }
            "edit" => {
                let enc = self.server.const_config().position_encoding;
                let changes = s["changes"].as_array().unwrap().iter().map(|c| TextDocumentContentChangeEvent {
                    range: c["range"].as_array().map(|r| {
                        let n = |i: usize| r[i].as_u64().unwrap() as u32;
                        Range::new(Position::new(n(0), n(1)), Position::new(n(2), n(3)))
                    }),
                    range_length: None,
                    text: c["t"].as_str().unwrap().into(),
                });
                let r = self.server.edit_source(self.path(&s["f"]), changes.collect(), enc);
                out["ok"] = json!(r.is_ok());
            }
            "close" => self.server.remove_source(self.path(&s["f"])).unwrap(),
            "focus" => {
                self.server.ever_manual_focusing = true;
                let f = s["f"].as_str().map(|_| self.path(&s["f"]));
                out["changed"] = json!(self.server.focus_main_file(f).unwrap());
            }
            "activity" => {
                let path = self.path(&s["f"]);
                self.server.implicit_focus_entry(|| Some(path), s["site"].as_str().unwrap().chars().next().unwrap());
            }
            "pin" => {
                let f = s["f"].as_str().map(|_| self.path(&s["f"]));
                self.server.pin_main_file(f).unwrap();
            }
            "pinpreview" => self.server.set_pin_by_preview(s["on"] == true, s["browsing"] == true),
            // As `start_preview` does, and a hover.
            "preview" => {
                if s["f"].is_string() {
                    self.server.change_main_file(Some(self.path(&s["f"]))).unwrap();
                }
                self.server.set_pin_by_preview(true, s["browsing"] == true);
            }
            "position" => self.server.implicit_position = Some(Position::new(s["at"].as_u64().unwrap() as u32, 0)),
            "main" => out["main"] = self.look_main(),
            // As `on_export` does, with the lock file in a directory.
            "remember" => {
                let entry = self.server.entry_resolver().resolve(Some(self.path(&s["f"])));
                let snap = self.server.snapshot().unwrap().task(TaskInputs { entry: Some(entry), ..TaskInputs::default() });
                CompiledArtifact::from_graph(snap.clone(), false);
                let mut updater = update_lock(self.path(&s["dir"]));
                let id = updater.compiled(snap.world()).unwrap();
                updater.update_materials(id.clone(), snap.world().depended_fs_paths());
                updater.route(id, s["priority"].as_u64().unwrap_or(256) as u32);
                updater.commit();
            }
            "task" => {
                if s["fresh"] != false {
                    self.server.route = Default::default();
                }
                let lock = std::mem::replace(&mut self.server.config.entry_resolver.project_resolution, ProjectResolutionKind::LockDatabase);
                let task = self.server.task_of(self.path(&s["f"]));
                self.server.config.entry_resolver.project_resolution = lock;
                let e = task.entry.unwrap();
                let (root, main) = (e.root().unwrap(), e.main().unwrap());
                let at = main.vpath().resolve(&root).unwrap();
                out["task"] = json!({ "root": self.name(root.to_str().unwrap()), "main": self.name(at.to_str().unwrap()) });
            }
            "reload" => self.server.reload_projects().unwrap(),
            "start" => {
                let id = self.server.restart_dedicate(s["id"].as_str().unwrap(), Some(self.path(&s["f"]))).unwrap();
                let w = Arc::new(CompileWatcher::default());
                if self.server.preview.watchers.register(&id, &w) {
                    self.previews.insert(id.to_string(), w);
                }
                // As the preview does once it is ready.
                self.server.project.interrupt(Interrupt::Compile(id));
            }
            "settle" => {
                let id = ProjectInsId(s["id"].as_str().unwrap().into());
                if self.server.preview.watchers.unregister(&id) {
                    self.previews.remove(&id.to_string());
                }
                self.server.project.interrupt(Interrupt::Settle(id));
            }
            "compile" => self.server.project.interrupt(Interrupt::Compile(ProjectInsId(s["id"].as_str().unwrap().into()))),
            "write" => std::fs::write(self.path(&s["f"]), s["t"].as_str().unwrap()).unwrap(),
            "remove" => drop(std::fs::remove_file(self.path(&s["f"]))),
            "mkdir" => std::fs::create_dir(self.path(&s["f"])).unwrap(),
            "notice" => {
                let kind = match s["kind"].as_str().unwrap() {
                    "create" => EventKind::Create(CreateKind::File),
                    "remove" => EventKind::Remove(RemoveKind::File),
                    "rename" => EventKind::Modify(ModifyKind::Name(RenameMode::From)),
                    _ => EventKind::Modify(ModifyKind::Data(DataChange::Any)),
                };
                out["told"] = json!(notify::emit(&self.path(&s["f"]), kind));
            }
            "watcher" => idle(&self.main),
            "recheck" => self.recheck(),
            "deliver" => out["did"] = json!(self.deliver()),
            "job" => {
                let n = s["n"].as_u64().unwrap_or(0) as usize;
                let j = rayon::take(n.min(rayon::pending().saturating_sub(1)));
                out["did"] = json!(j.is_some());
                if let Some(j) = j {
                    j();
                }
            }
            "editor" => self.editor_turn(),
            "hold" => hold(true),
            "export" => {
                if self.export(s["n"].as_u64().unwrap_or(0) as usize) {
                    out["exports"] = json!(self.exports());
                }
            }
            "quiesce" => {
                out["rounds"] = json!(self.quiesce());
                out["look"] = self.look();
            }
            "look" => out["look"] = self.look(),
            "text" => {
                let t = self.server.query_source(self.path(&s["f"]), |s| Ok(s.text().to_owned()));
                out["text"] = json!(t.ok());
            }
            o => panic!("unknown step {o}"),
        }
        if !self.seen.is_empty() {
            out["seen"] = Value::Array(std::mem::take(&mut self.seen));
        }
        out
    }
}

struct Out;
impl log::Log for Out {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{} {}", r.level(), r.args());
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var_os("PROJ_LOG").is_some() {
        log::set_logger(&Out).unwrap();
        log::set_max_level(log::LevelFilter::Debug);
    }
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    std::env::set_var("XDG_CACHE_HOME", dir.join(".cache"));
    let out = std::io::stdout();
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {i}")));
    for line in std::io::stdin().lock().lines() {
        let b: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        if let Some(fs) = b["disk"].as_object() {
            for (f, t) in fs {
                std::fs::write(dir.join(f), t.as_str().unwrap()).unwrap();
            }
        }
        let mut sys = Sys::new(&dir, &b["cfg"]);
        let mut res = vec![];
        for s in b["steps"].as_array().unwrap() {
            match catch_unwind(AssertUnwindSafe(|| sys.step(s))) {
                Ok(v) => res.push(v),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    res.push(json!({ "panic": m.unwrap_or_default() }));
                    break;
                }
            }
        }
        hold(false);
        drop(sys);
        while rayon::take(0).is_some() {}
        writeln!(out.lock(), "{}", Value::Array(res)).unwrap();
    }
}
