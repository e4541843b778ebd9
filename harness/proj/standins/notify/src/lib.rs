//! A stand-in for notify: watches nothing by itself; the harness asks what is watched and delivers the events.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub enum ErrorKind {
    Generic(String),
    PathNotFound,
    WatchNotFound,
}
#[derive(Debug, Clone)]
pub struct Error {
    pub kind: ErrorKind,
    pub paths: Vec<PathBuf>,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, Default)]
pub struct Config {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange {
        Any,
        Size,
        Content,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum MetadataKind {
        Any,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum ModifyKind {
        Any,
        Data(DataChange),
        Metadata(MetadataKind),
        Name(RenameMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EventKind {
        Any,
        Access,
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    impl EventKind {
        pub fn is_remove(&self) -> bool {
            matches!(self, EventKind::Remove(_))
        }
        pub fn is_modify(&self) -> bool {
            matches!(self, EventKind::Modify(_))
        }
        pub fn is_create(&self) -> bool {
            matches!(self, EventKind::Create(_))
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Event {
        pub kind: EventKind,
        pub paths: Vec<std::path::PathBuf>,
    }
}
pub use event::{Event, EventKind};

pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        self(event)
    }
}
pub trait Watcher {
    fn new<F: EventHandler>(event_handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, recursive_mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}

struct Inner {
    handler: Box<dyn EventHandler>,
    watched: BTreeSet<PathBuf>,
}
#[derive(Clone)]
pub struct RecommendedWatcher(Arc<Mutex<Inner>>);
impl std::fmt::Debug for RecommendedWatcher {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RecommendedWatcher")
    }
}
static WATCHERS: Mutex<Vec<std::sync::Weak<Mutex<Inner>>>> = Mutex::new(Vec::new());

impl Watcher for RecommendedWatcher {
    fn new<F: EventHandler>(event_handler: F, _: Config) -> Result<Self> {
        let it = Arc::new(Mutex::new(Inner { handler: Box::new(event_handler), watched: BTreeSet::new() }));
        WATCHERS.lock().unwrap().push(Arc::downgrade(&it));
        Ok(Self(it))
    }
    /// Like inotify: only what exists can be watched.
    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
        if !path.exists() {
            return Err(Error { kind: ErrorKind::PathNotFound, paths: vec![path.to_owned()] });
        }
        self.0.lock().unwrap().watched.insert(path.to_owned());
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        match self.0.lock().unwrap().watched.remove(path) {
            true => Ok(()),
            false => Err(Error { kind: ErrorKind::WatchNotFound, paths: vec![path.to_owned()] }),
        }
    }
}

/// For the harness: what the living watchers watch.
pub fn watched() -> BTreeSet<PathBuf> {
    let ws = WATCHERS.lock().unwrap();
    ws.iter().filter_map(|w| w.upgrade()).flat_map(|w| w.lock().unwrap().watched.clone()).collect()
}
/// For the harness: the file changed. Whoever watches it is told; a file that is gone is not watched any longer.
pub fn emit(path: &Path, kind: EventKind) -> usize {
    let ws: Vec<_> = WATCHERS.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
    let mut told = 0;
    for w in ws {
        let mut w = w.lock().unwrap();
        if w.watched.contains(path) {
            if kind.is_remove() || kind == EventKind::Modify(event::ModifyKind::Name(event::RenameMode::From)) {
                w.watched.remove(path);
            }
            told += 1;
            w.handler.handle_event(Ok(Event { kind, paths: vec![path.to_owned()] }));
        }
    }
    told
}
