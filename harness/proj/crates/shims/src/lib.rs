//! What the server's own modules use of crates that cannot be built here: reflexo, reflexo-typst, tinymist-query, tinymist-render and
//! typst-preview. Positions and URLs are the real code.
#![allow(missing_docs, unused, clippy::all)]
extern crate self as tinymist_analysis;

pub use ::typst::foundations::Bytes;
pub use ::typst::utils::LazyHash;
pub use tinymist_std::typst::TypstDocument;
pub use tinymist_std::*;
pub use tinymist_world::debug_loc;

pub mod typst {
    pub use ::typst::*;
    pub mod prelude {
        pub use ecow::*;
    }
}
#[derive(Debug, Clone, Copy)]
pub enum DiagnosticFormat {
    Human,
}
pub mod diag {
    pub fn print_diagnostics<'d, W>(_: &W, _: impl Iterator<Item = &'d ::typst::diag::SourceDiagnostic>, _: super::DiagnosticFormat) -> Result<(), String> {
        Ok(())
    }
}

mod prelude {
    pub use ::typst::syntax::Source;
    pub use lsp_types::Url;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::LazyLock;
}
#[path = "/repo/crates/tinymist-analysis/src/location.rs"]
pub mod location;
#[path = "/repo/crates/tinymist-query/src/lsp_typst_boundary.rs"]
pub mod lsp_typst_boundary;
pub use lsp_typst_boundary::*;

use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

use ecow::EcoVec;
use lsp_types::{Diagnostic, Url};
use tinymist_project::{LspCompiledArtifact, LspComputeGraph, LspWorld, TaskWhen};
use ::typst::World;

pub type DiagnosticsMap = HashMap<Url, EcoVec<Diagnostic>>;
/// The diagnostics by the file they are about.
pub fn convert_diagnostics<'a>(world: &LspWorld, errors: impl IntoIterator<Item = &'a ::typst::diag::SourceDiagnostic>, enc: PositionEncoding) -> DiagnosticsMap {
    let mut map = DiagnosticsMap::default();
    for e in errors {
        let id = e.span.id().unwrap_or(world.main());
        let Ok(path) = world.path_for_id(id) else { continue };
        let Ok(url) = path_res_to_url(path) else { continue };
        let range = world.source(id).ok().and_then(|s| Some(to_lsp_range(s.range(e.span)?, &s, enc)));
        map.entry(url).or_default().push(Diagnostic { message: e.message.to_string(), range: range.unwrap_or_default(), ..Default::default() });
    }
    map
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ColorTheme {
    Light,
    Dark,
}
#[derive(Debug, Clone, Default)]
pub struct CompletionFeat {}

pub enum CompilerQueryRequest {}
impl CompilerQueryRequest {
    pub fn associated_path(&self) -> Option<&Path> {
        None
    }
}
impl From<&CompilerQueryRequest> for &'static str {
    fn from(_: &CompilerQueryRequest) -> Self {
        ""
    }
}
pub struct LocalContext {
    world: LspWorld,
    enc: PositionEncoding,
}
pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext) -> Option<Self::Response>;
}
pub struct CheckRequest {
    pub snap: LspCompiledArtifact,
}
impl SemanticRequest for CheckRequest {
    type Response = DiagnosticsMap;
    fn request(self, ctx: &mut LocalContext) -> Option<DiagnosticsMap> {
        Some(convert_diagnostics(&ctx.world, self.snap.diagnostics(), ctx.enc))
    }
}
pub mod analysis {
    pub use super::*;
    pub trait PeriscopeProvider {
        fn periscope_at(&self, _: &mut LocalContext, _: &TypstDocument, _: ::typst::layout::Position) -> Option<String> {
            None
        }
    }
    pub struct Analysis {
        pub position_encoding: PositionEncoding,
        pub allow_overlapping_token: bool,
        pub allow_multiline_token: bool,
        pub remove_html: bool,
        pub completion_feat: CompletionFeat,
        pub color_theme: ColorTheme,
        pub lint: TaskWhen,
        pub periscope: Option<Arc<dyn PeriscopeProvider + Send + Sync>>,
        pub workers: Arc<()>,
        pub tokens_caches: Arc<()>,
        pub caches: (),
        pub analysis_rev_cache: Arc<()>,
        pub stats: Arc<()>,
    }
    impl Analysis {
        pub fn enter(&self, world: LspWorld) -> LocalContext {
            LocalContext { world, enc: self.position_encoding }
        }
        pub fn query_snapshot(self: Arc<Self>, snap: LspComputeGraph, _: Option<&CompilerQueryRequest>) -> LspQuerySnapshot {
            LspQuerySnapshot { snap }
        }
    }
    pub struct LspQuerySnapshot {
        pub snap: LspComputeGraph,
    }
}

#[derive(Debug, Clone)]
pub struct PeriscopeArgs {}
pub struct PeriscopeRenderer;
impl PeriscopeRenderer {
    pub fn new(_: PeriscopeArgs) -> Self {
        Self
    }
    pub fn render_marked(&self, _: &mut LocalContext, _: &TypstDocument, _: ::typst::layout::Position) -> Option<String> {
        None
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompileStatus {
    Compiling,
    CompileSuccess,
    CompileError,
}
pub trait CompileView: Send + Sync {
    fn artifact(&self) -> &LspCompiledArtifact;
}
/// Remembers what a preview is told.
#[derive(Default)]
pub struct CompileWatcher {
    pub statuses: parking_lot::Mutex<Vec<CompileStatus>>,
    pub views: parking_lot::Mutex<Vec<Arc<dyn CompileView>>>,
}
impl CompileWatcher {
    pub fn status(&self, status: CompileStatus) {
        self.statuses.lock().push(status);
    }
    pub fn notify_compile(&self, view: Arc<dyn CompileView>) {
        self.views.lock().push(view);
    }
}
pub trait LspWorldExt {
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath>;
}
impl LspWorldExt for LspWorld {
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath> {
        use tinymist_vfs::FsProvider;
        use tinymist_world::WorldDeps;
        let mut deps = EcoVec::new();
        self.iter_dependencies(&mut |id| {
            if let Ok(path) = self.path_for_id(id) {
                deps.push(path.as_path().into());
            }
        });
        deps
    }
}

pub use tinymist_world::{CompilationTask, ExportComputation};
pub mod query {
    use ::typst::foundations::{IntoValue, Value};
    pub struct Element;
    impl Element {
        pub fn get_by_name(&self, _: &str) -> Result<Value, String> {
            Ok(Value::None)
        }
    }
    impl IntoValue for Element {
        fn into_value(self) -> Value {
            Value::None
        }
    }
    pub fn retrieve<W>(_: &W, _: &str, _: &super::TypstDocument) -> Result<Vec<Element>, String> {
        Ok(vec![])
    }
}
pub use exports::*;
/// Exports other than those of `tinymist_task`.
pub mod exports {
    pub struct DefaultExportFeature;
    pub fn render_svg_html<F>(d: &::typst::layout::PagedDocument) -> String {
        d.text.to_string()
    }
    pub fn html(d: &::typst::html::HtmlDocument) -> Result<String, ()> {
        Ok(d.text.to_string())
    }
    pub fn svg(_: &::typst::layout::Page) -> String {
        String::new()
    }
    pub fn svg_merged(d: &::typst::layout::PagedDocument, _: ::typst::layout::Abs) -> String {
        d.text.to_string()
    }
    pub struct Pixmap;
    impl Pixmap {
        pub fn encode_png(&self) -> Result<Vec<u8>, String> {
            Ok(vec![])
        }
    }
    pub fn render(_: &::typst::layout::Page, _: f32) -> Pixmap {
        Pixmap
    }
    pub fn render_merged(_: &::typst::layout::PagedDocument, _: f32, _: ::typst::layout::Abs, _: Option<::typst::visualize::Color>) -> Pixmap {
        Pixmap
    }
    pub fn to_string<T>(_: &T) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
    pub struct Typlite;
    impl Typlite {
        pub fn new<W>(_: W) -> Self {
            Self
        }
        pub fn convert(self) -> Result<String, String> {
            Ok(String::new())
        }
    }
}
