//! Drives tinymist-vfs: one JSON command a line, one answer each. The disk is a table in memory whose reads can be held.
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;
use tinymist_std::ImmutPath;
use tinymist_vfs::{
    FileChangeSet, FileId, FilesystemEvent, PathAccessModel, PathResolution, RootResolver, Vfs, WorkspaceResolver,
};
use typst::diag::{FileError, FileResult, PackageError};
use typst::foundations::Bytes;
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;

/// Contents by number. 0 is "not found"; -2 another error.
const CONTENTS: [&[u8]; 10] = [
    b"", b"one", b"two", b"\xff\xfenot text", b"\xef\xbb\xbfone", b"", b"\xc3\xa9t\xc3\xa9 \xf0\x9f\x98\x80\r\nx", b"\xef\xbb\xbf",
    b"one two", b"\xef\xbb\xbf\xef\xbb\xbftwo",
];

#[derive(Default)]
struct Disk {
    files: HashMap<PathBuf, i64>,
    /// Threads stop before or after the look at the disk while their gate is shut.
    gates: HashMap<std::thread::ThreadId, (bool, bool)>,
    waiting: HashMap<std::thread::ThreadId, bool>,
    resets: usize,
}
#[derive(Clone, Default)]
struct World(Arc<(Mutex<Disk>, Condvar)>);
impl World {
    fn gate(&self, late: bool) {
        let me = std::thread::current().id();
        let (m, c) = &*self.0;
        let mut d = m.lock().unwrap();
        while d.gates.get(&me).is_some_and(|g| if late { g.1 } else { g.0 }) {
            d.waiting.insert(me, late);
            c.notify_all();
            d = c.wait(d).unwrap();
        }
        d.waiting.remove(&me);
    }
}
fn content(v: i64, path: &Path) -> FileResult<Bytes> {
    match v {
        0 => Err(FileError::NotFound(path.to_owned())),
        -2 => Err(FileError::Other(Some("gone wrong".into()))),
        -3 => Err(FileError::IsDirectory),
        v => Ok(Bytes::new(CONTENTS[v as usize])),
    }
}
impl PathAccessModel for World {
    fn reset(&mut self) {
        self.0 .0.lock().unwrap().resets += 1;
    }
    fn content(&self, src: &Path) -> FileResult<Bytes> {
        self.gate(false);
        let v = self.0 .0.lock().unwrap().files.get(src).copied().unwrap_or(0);
        self.gate(true);
        content(v, src)
    }
}
impl RootResolver for World {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        if pkg.name == "missing" {
            return Err(FileError::Package(PackageError::NotFound(pkg.clone())));
        }
        Ok(Path::new(&format!("/pkg/{}/{}", pkg.name, pkg.version)).into())
    }
}

fn file_id(v: &Value) -> FileId {
    let path = VirtualPath::new(v["v"].as_str().unwrap());
    let root = v["root"].as_str().map(|r| ImmutPath::from(Path::new(r)));
    match v["k"].as_str().unwrap() {
        "ws" => WorkspaceResolver::workspace_file(root.as_ref(), path),
        "untitled" => WorkspaceResolver::rooted_untitled(root.as_ref(), path),
        "rootless" => WorkspaceResolver::rootless_file(path),
        "pkg" => FileId::new(Some(v["pkg"].as_str().unwrap().parse().unwrap()), path),
        k => panic!("{k}"),
    }
}
fn error(e: &FileError) -> Value {
    match e {
        FileError::NotFound(_) => json!(0),
        FileError::AccessDenied => json!(-1),
        FileError::Other(Some(m)) if m == "gone wrong" => json!(-2),
        FileError::IsDirectory => json!(-3),
        FileError::InvalidUtf8 => json!(-4),
        FileError::Package(_) => json!(-5),
        e => json!(format!("{e:?}")),
    }
}
/// What a read gave: the bytes in hexadecimal, or an error.
fn hex(b: &[u8]) -> Value {
    json!(b.iter().map(|b| format!("{b:02x}")).collect::<String>())
}
struct Sys {
    files: Vec<FileId>,
    world: World,
    main: Vfs<World>,
}
fn read(v: &Vfs<World>, f: FileId, how: &str) -> Value {
    match how {
        "bytes" => match v.read(f) {
            Ok(b) => json!({"b": hex(&b)}),
            Err(e) => json!({"e": error(&e)}),
        },
        _ => match v.source(f) {
            Ok(s) if s.id() == f => json!({"t": hex(s.text().as_bytes())}),
            Ok(s) => json!({"t": format!("the source of {:?}", s.id())}),
            Err(e) => json!({"e": error(&e)}),
        },
    }
}
struct Reader {
    handle: Option<JoinHandle<()>>,
    answer: mpsc::Receiver<Value>,
    id: std::thread::ThreadId,
    got: Option<Value>,
}
fn changes(o: &Value) -> FileChangeSet {
    FileChangeSet {
        removes: o["rem"].as_array().unwrap().iter().map(|p| Path::new(p.as_str().unwrap()).into()).collect(),
        inserts: (o["ins"].as_array().unwrap().iter())
            .map(|x| (Path::new(x[0].as_str().unwrap()).into(), content(x[1].as_i64().unwrap(), Path::new(x[0].as_str().unwrap())).into()))
            .collect(),
    }
}
fn edit(v: &mut Vfs<World>, ops: &[Value], files: &[FileId]) {
    let mut r = v.revise();
    for o in ops {
        let path = o["p"].as_str().map(Path::new);
        let snap = || content(o["v"].as_i64().unwrap(), path.unwrap_or(Path::new("/"))).into();
        let f = || files[o["f"].as_u64().unwrap() as usize - 1];
        match o["k"].as_str().unwrap() {
            "map" => r.map_shadow(path.unwrap(), snap()).unwrap(),
            "unmap" => r.unmap_shadow(path.unwrap()).unwrap(),
            "mapid" => r.map_shadow_by_id(f(), snap()).unwrap(),
            "unmapid" => r.remove_shadow_by_id(f()),
            "notify" if o["event"] == true => r.notify_fs_event(FilesystemEvent::Update(changes(o))),
            "notify" => r.notify_fs_changes(changes(o)),
            "reset_shadow" => r.reset_shadow(),
            "reset_cache" => r.reset_cache(),
            k => panic!("{k}"),
        }
    }
}
fn shadows(v: &Vfs<World>, files: &[FileId]) -> Value {
    let mut p: Vec<String> = v.shadow_paths().iter().map(|p| p.display().to_string()).collect();
    let mut f: Vec<usize> = v.shadow_ids().iter().map(|i| files.iter().position(|f| f == i).map_or(0, |i| i + 1)).collect();
    p.sort();
    f.sort();
    json!({"rev": v.revision().get(), "paths": p, "ids": f})
}

fn vfs() {
    let mut sys: Option<Sys> = None;
    let mut others: Vec<Arc<Vfs<World>>> = vec![];
    let mut readers: Vec<Reader> = vec![];
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let op = c["op"].as_str().unwrap();
        let h = c["h"].as_u64().unwrap_or(1) as usize;
        let file = |s: &Sys| s.files[c["f"].as_u64().unwrap() as usize - 1];
        let out = if op == "new" {
            let world = World::default();
            for (p, v) in c["disk"].as_object().unwrap() {
                world.0 .0.lock().unwrap().files.insert(p.into(), v.as_i64().unwrap());
            }
            let main = Vfs::new(Arc::new(world.clone()), world.clone());
            others.clear();
            readers.clear();
            let files: Vec<FileId> = c["files"].as_array().unwrap().iter().map(file_id).collect();
            let rev = main.revision().get();
            sys = Some(Sys { files, world, main });
            json!(rev)
        } else {
            let s = sys.as_mut().unwrap();
            let at = |s: &Sys, f: &dyn Fn(&Vfs<World>) -> Value| if h == 1 { f(&s.main) } else { f(&others[h - 2]) };
            match op {
                "disk" => {
                    s.world.0 .0.lock().unwrap().files.insert(c["p"].as_str().unwrap().into(), c["v"].as_i64().unwrap());
                    json!(true)
                }
                "edit" => {
                    let ops = c["ops"].as_array().unwrap();
                    if h == 1 {
                        edit(&mut s.main, ops, &s.files);
                        shadows(&s.main, &s.files)
                    } else {
                        // A snapshot that is edited is not read by other threads.
                        let v = Arc::get_mut(&mut others[h - 2]).expect("a snapshot of its own");
                        edit(v, ops, &s.files);
                        shadows(v, &s.files)
                    }
                }
                "snap" => {
                    let v = if h == 1 { s.main.snapshot() } else { others[h - 2].snapshot() };
                    let out = shadows(&v, &s.files);
                    others.push(Arc::new(v));
                    out
                }
                "fork" => {
                    let v = if h == 1 { s.main.fork() } else { others[h - 2].fork() };
                    let out = shadows(&v, &s.files);
                    others.push(Arc::new(v));
                    out
                }
                "read" => at(s, &|v| read(v, file(s), c["how"].as_str().unwrap())),
                "path" => match s.main.file_path(file(s)) {
                    Ok(PathResolution::Resolved(p)) => json!({"path": p}),
                    Ok(PathResolution::Rootless(p)) => json!({"rootless": p.as_rooted_path()}),
                    Err(e) => json!({"e": error(&e)}),
                },
                "clean" => {
                    let ids: Vec<FileId> = c["ids"].as_array().unwrap().iter().map(|f| s.files[f.as_u64().unwrap() as usize - 1]).collect();
                    at(s, &|v| json!(v.is_clean_compile(c["r"].as_u64().unwrap() as usize, &ids)))
                }
                "evict" => {
                    let n = c["n"].as_u64().unwrap() as usize;
                    if h == 1 {
                        s.main.evict(n);
                    } else {
                        // As CompilerWorld::evict_vfs does with a clone of its own.
                        others[h - 2].snapshot().evict(n);
                    }
                    json!(true)
                }
                "evict_sources" => {
                    let n = c["n"].as_u64().unwrap() as usize;
                    at(s, &|v| {
                        v.clone_source_cache().evict(NonZeroUsize::new(v.revision().get()).unwrap(), n);
                        json!(true)
                    })
                }
                "reset_am" => {
                    s.main.reset_access_model();
                    json!(s.world.0 .0.lock().unwrap().resets)
                }
                "reset_all" => {
                    s.main.reset_all();
                    shadows(&s.main, &s.files)
                }
                "begin" => {
                    let f = file(s);
                    let how = c["how"].as_str().unwrap().to_owned();
                    let v = if h == 1 { Arc::new(s.main.snapshot()) } else { others[h - 2].clone() };
                    let v = if c["own"] == true { Arc::new(v.snapshot()) } else { v };
                    let late = c["late"] == true;
                    let (tx, rx) = mpsc::channel();
                    let (go, start) = mpsc::channel::<()>();
                    let t = std::thread::spawn(move || {
                        start.recv().unwrap();
                        let got = read(&v, f, &how);
                        drop(v);
                        tx.send(got).ok();
                    });
                    let id = t.thread().id();
                    let (m, cv) = &*s.world.0;
                    m.lock().unwrap().gates.insert(id, (!late, late));
                    go.send(()).unwrap();
                    let mut r = Reader { handle: Some(t), answer: rx, id, got: None };
                    // It stops at its gate, or ends, or waits for another reader.
                    let mut held = false;
                    for _ in 0..200 {
                        if let Ok(x) = r.answer.try_recv() {
                            r.got = Some(x);
                            break;
                        }
                        let d = m.lock().unwrap();
                        if d.waiting.contains_key(&id) {
                            held = true;
                            break;
                        }
                        drop(cv.wait_timeout(d, Duration::from_millis(1)).unwrap());
                    }
                    readers.push(r);
                    json!({"held": held})
                }
                "end" => {
                    let r = &mut readers[c["t"].as_u64().unwrap() as usize - 1];
                    let (m, cv) = &*s.world.0;
                    m.lock().unwrap().gates.remove(&r.id);
                    cv.notify_all();
                    let got = r.got.take().or_else(|| r.answer.recv_timeout(Duration::from_secs(20)).ok());
                    if got.is_some() {
                        r.handle.take().map(|h| h.join());
                    }
                    got.unwrap_or(json!("never ended"))
                }
                _ => panic!("{op}"),
            }
        };
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &out).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

#[path = "/repo/crates/tinymist-world/src/entry.rs"]
#[allow(dead_code)]
mod entry;
use entry::{EntryOpts, EntryState};

fn text(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn root_of(v: &Value) -> Option<ImmutPath> {
    v.as_str().map(|r| ImmutPath::from(Path::new(r)))
}
fn place(r: Result<PathResolution, FileError>) -> Value {
    match r {
        Ok(PathResolution::Resolved(p)) => json!({"path": p}),
        Ok(PathResolution::Rootless(p)) => json!({"rootless": p.as_rooted_path()}),
        Err(e) => json!({"e": error(&e)}),
    }
}
fn about(id: FileId, cls: usize) -> Value {
    let w = World::default();
    let at = w.path_for_id(id);
    let err = at.as_ref().ok().map(|p| p.as_path().to_owned());
    json!({
        "cls": cls, "ws": WorkspaceResolver::is_workspace_file(id), "pk": WorkspaceResolver::is_package_file(id),
        "as_path": err, "to_err": w.path_for_id(id).and_then(|p| p.to_err()).is_ok(),
        "at": place(at), "root": match w.resolve_root(id) { Ok(r) => json!({"r": r.as_deref()}), Err(e) => json!({"e": error(&e)}) },
        "shown": format!("{:?}", WorkspaceResolver::display(Some(id))),
    })
}
fn state(s: &EntryState) -> Value {
    json!({
        "root": s.root().as_deref(), "wsroot": s.workspace_root().as_deref(), "main": s.main().map(|m| about(m, 0)),
        "inactive": s.is_inactive(), "detached": s.is_detached(), "pkg": s.is_in_package(),
    })
}
fn an_entry(c: &Value) -> EntryState {
    match text(&c["from"]) {
        "detached" => EntryState::new_detached(),
        "workspace" => EntryState::new_workspace(root_of(&c["root"]).unwrap()),
        "rooted" => EntryState::new_rooted(root_of(&c["root"]).unwrap(), Some(VirtualPath::new(text(&c["main"])))),
        "rootless" => EntryState::new_rootless(VirtualPath::new(text(&c["main"]))),
        "by_id" => EntryState::new_rooted_by_id(root_of(&c["root"]).unwrap(), file_id(&c["id"])),
        k => panic!("{k}"),
    }
}
fn entries() {
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let some = |s: Option<EntryState>| s.map_or(json!(null), |s| state(&s));
        let got = std::panic::catch_unwind(|| match text(&c["op"]) {
            "ids" => {
                let files = c["files"].as_array().unwrap();
                let n = c["threads"].as_u64().unwrap() as usize;
                let bar = std::sync::Barrier::new(n);
                let lists: Vec<Vec<FileId>> = std::thread::scope(|sc| {
                    let bar = &bar;
                    let hs: Vec<_> = (0..n)
                        .map(|t| {
                            sc.spawn(move || {
                                bar.wait();
                                let k = files.len();
                                let mut ids: Vec<(usize, FileId)> =
                                    (0..k).map(|i| (i + t * 7) % k).map(|i| (i, file_id(&files[i]))).collect();
                                ids.sort_by_key(|x| x.0);
                                ids.into_iter().map(|x| x.1).collect()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let mut seen: Vec<FileId> = vec![];
                let mut out = vec![];
                for l in lists {
                    let mut o = vec![];
                    for id in l {
                        let cls = seen.iter().position(|s| *s == id).unwrap_or_else(|| {
                            seen.push(id);
                            seen.len() - 1
                        });
                        o.push(about(id, cls));
                    }
                    out.push(o);
                }
                json!(out)
            }
            "parent" => some(EntryState::new_rooted_by_parent(Path::new(text(&c["path"])).into())),
            "file_parent" => WorkspaceResolver::file_with_parent_root(Path::new(text(&c["path"]))).map_or(json!(null), |i| about(i, 0)),
            "make" => state(&an_entry(&c)),
            "select" => state(&an_entry(&c).select_in_workspace(Path::new(text(&c["path"])))),
            "try" => match an_entry(&c).try_select_path_in_workspace(Path::new(text(&c["path"]))) {
                Ok(s) => some(s),
                Err(_) => json!({"err": true}),
            },
            "opts" => {
                let o = match text(&c["from"]) {
                    "detached" => EntryOpts::new_detached(),
                    "workspace" => EntryOpts::new_workspace(text(&c["root"]).into()),
                    "rooted" => EntryOpts::new_rooted(text(&c["root"]).into(), c["main"].as_str().map(Into::into)),
                    "rootless" => match EntryOpts::new_rootless(text(&c["main"]).into()) {
                        Some(o) => o,
                        None => return json!({"err": true}),
                    },
                    "by_parent" => EntryOpts::RootByParent { entry: text(&c["main"]).into() },
                    k => panic!("{k}"),
                };
                // As it comes back from a stored project.
                let o: EntryOpts = serde_json::from_value(serde_json::to_value(&o).unwrap()).unwrap();
                match EntryState::try_from(o) {
                    Ok(s) => state(&s),
                    Err(_) => json!({"err": true}),
                }
            }
            k => panic!("{k}"),
        });
        println!("{}", got.unwrap_or(json!({"panicked": true})));
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("vfs") | None => vfs(),
        Some("entries") => entries(),
        Some(x) => panic!("{x}"),
    }
}
