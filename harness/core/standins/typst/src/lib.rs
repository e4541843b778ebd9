//! A stand-in for typst: the types tinymist's own crates use around it, and a small language to compile (see `compile`).
pub mod diag;
pub mod engine;
pub mod foundations;
pub mod html;
pub mod introspection;
pub mod layout;
pub mod model;
pub mod syntax;
pub mod text;
pub mod utils;
pub mod visualize;
pub mod routines {
    pub struct Routines;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EvalMode {
        Code,
        Markup,
        Math,
    }
}
pub use comemo;
pub use ecow;
pub static ROUTINES: routines::Routines = routines::Routines;

use diag::{FileResult, SourceDiagnostic, SourceResult, Warned};
use ecow::{EcoString, EcoVec};
use foundations::{Bytes, Datetime, Dict};
use syntax::{FileId, Source, Span};
use text::{Font, FontBook};
use utils::LazyHash;

/// The environment in which typesetting occurs.
#[comemo::track]
pub trait World: Send + Sync {
    fn library(&self) -> &LazyHash<Library>;
    fn book(&self) -> &LazyHash<FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<Bytes>;
    fn font(&self, index: usize) -> Option<Font>;
    fn today(&self, offset: Option<i64>) -> Option<Datetime>;
}

macro_rules! deref_world {
    ($($t:ty),*) => {$(
        impl<W: World + ?Sized> World for $t {
            fn library(&self) -> &LazyHash<Library> { (**self).library() }
            fn book(&self) -> &LazyHash<FontBook> { (**self).book() }
            fn main(&self) -> FileId { (**self).main() }
            fn source(&self, id: FileId) -> FileResult<Source> { (**self).source(id) }
            fn file(&self, id: FileId) -> FileResult<Bytes> { (**self).file(id) }
            fn font(&self, index: usize) -> Option<Font> { (**self).font(index) }
            fn today(&self, offset: Option<i64>) -> Option<Datetime> { (**self).today(offset) }
        }
    )*};
}
deref_world!(Box<W>, std::sync::Arc<W>, &W);

pub trait WorldExt {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>>;
}
impl<T: World + ?Sized> WorldExt for T {
    fn range(&self, span: Span) -> Option<std::ops::Range<usize>> {
        self.source(span.id()?).ok()?.range(span)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Feature {
    Html,
}
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
pub struct Features(Vec<Feature>);
impl Features {
    pub fn is_enabled(&self, f: Feature) -> bool {
        self.0.contains(&f)
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<T: IntoIterator<Item = Feature>>(t: T) -> Self {
        let mut v: Vec<Feature> = t.into_iter().collect();
        v.dedup();
        Self(v)
    }
}

#[derive(Debug, Clone, Hash)]
pub struct Library {
    pub inputs: Dict,
    pub features: Features,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        LibraryBuilder::default()
    }
}
impl Default for Library {
    fn default() -> Self {
        Self::builder().build()
    }
}
#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder {
    inputs: Dict,
    features: Features,
}
impl LibraryBuilder {
    pub fn with_inputs(mut self, inputs: Dict) -> Self {
        self.inputs = inputs;
        self
    }
    pub fn with_features(mut self, features: Features) -> Self {
        self.features = features;
        self
    }
    pub fn build(self) -> Library {
        Library { inputs: self.inputs, features: self.features }
    }
}

pub trait Document: std::fmt::Debug + Clone + Send + Sync + 'static {
    fn target() -> foundations::Target;
    fn info(&self) -> &model::DocumentInfo;
    #[doc(hidden)]
    fn from_text(text: EcoString) -> Self;
}
impl Document for layout::PagedDocument {
    fn target() -> foundations::Target {
        foundations::Target::Paged
    }
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn from_text(text: EcoString) -> Self {
        let info = model::DocumentInfo::of(&text);
        Self { pages: vec![layout::Page::default()], info, introspector: Default::default(), text }
    }
}
impl Document for html::HtmlDocument {
    fn target() -> foundations::Target {
        foundations::Target::Html
    }
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn from_text(text: EcoString) -> Self {
        let info = model::DocumentInfo::of(&text);
        Self { root: Default::default(), info, introspector: Default::default(), text }
    }
}

/// Compiles the main file. Its words are copied to the document, but `include:PATH` is replaced by what the source at PATH compiles
/// to, `read:PATH` by the bytes of a file, `input:KEY` by an input, and `error:MSG` and `warn:MSG` give diagnostics.
pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    let mut c = Compiler { world, out: String::new(), errors: EcoVec::new(), warnings: EcoVec::new() };
    c.file(world.main(), Span::detached(), 0);
    Warned {
        output: if c.errors.is_empty() { Ok(D::from_text(c.out.into())) } else { Err(c.errors) },
        warnings: c.warnings,
    }
}

struct Compiler<'a> {
    world: &'a dyn World,
    out: String,
    errors: EcoVec<SourceDiagnostic>,
    warnings: EcoVec<SourceDiagnostic>,
}
impl Compiler<'_> {
    fn file(&mut self, id: FileId, span: Span, depth: usize) {
        let source = match self.world.source(id) {
            Ok(s) if depth < 8 => s,
            Ok(_) => return self.errors.push(SourceDiagnostic::error(span, "cyclic include")),
            Err(e) => return self.errors.push(SourceDiagnostic::error(span, EcoString::from(e))),
        };
        let text = source.text().to_owned();
        let mut at = 0;
        for word in text.split_inclusive(char::is_whitespace) {
            let span = Span::from_range(id, at..at + word.trim_end().len());
            at += word.len();
            match word.trim_end().split_once(':') {
                Some(("include", p)) => self.file(id.join(p), span, depth + 1),
                Some(("read", p)) => match self.world.file(id.join(p)) {
                    Ok(b) => self.out.push_str(&String::from_utf8_lossy(&b)),
                    Err(e) => self.errors.push(SourceDiagnostic::error(span, EcoString::from(e))),
                },
                Some(("input", k)) => {
                    let v = format!("{:?} ", self.world.library().inputs.get(k).ok());
                    self.out.push_str(&v)
                }
                Some(("error", m)) => self.errors.push(SourceDiagnostic::error(span, m)),
                Some(("warn", m)) => self.warnings.push(SourceDiagnostic::warning(span, m)),
                _ => self.out.push_str(word),
            }
        }
    }
}
