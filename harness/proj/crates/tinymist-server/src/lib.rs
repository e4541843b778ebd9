//! The server's project, document and diagnostics modules, with small stand-ins for what is around them.
#![allow(missing_docs, unused, clippy::all)]
extern crate shims as reflexo;
extern crate shims as reflexo_typst;
extern crate shims as reflexo_vec2svg;
extern crate shims as serde_yaml;
extern crate shims as tinymist_query;
extern crate shims as tinymist_render;
extern crate shims as typlite;
extern crate shims as typst_html;
extern crate shims as typst_preview;
extern crate shims as typst_render;
extern crate shims as typst_svg;

pub mod actor {
    #[path = "/repo/crates/tinymist/src/actor/editor.rs"]
    pub mod editor;
}
#[path = "/repo/crates/tinymist/src/input.rs"]
mod input;
#[path = "/repo/crates/tinymist/src/project.rs"]
pub mod project;
#[path = "/repo/crates/tinymist/src/route.rs"]
pub mod route;
#[path = "/repo/crates/tinymist/src/stats.rs"]
pub mod stats;
pub mod task {
    include!(concat!(env!("OUT_DIR"), "/task/mod.rs"));
}
pub use tinymist_project::world;
pub mod tool {
    pub mod word_count {
        #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
        pub struct WordsCount {
            pub words: usize,
        }
        pub fn word_count(doc: &tinymist_std::typst::TypstDocument) -> WordsCount {
            let text = tinymist_task::TextExport::run_on_doc(doc).unwrap();
            WordsCount { words: text.split_whitespace().count() }
        }
    }
    pub mod preview {
        pub struct PreviewCompileView {
            pub art: tinymist_project::LspCompiledArtifact,
        }
        impl typst_preview::CompileView for PreviewCompileView {
            fn artifact(&self) -> &tinymist_project::LspCompiledArtifact {
                &self.art
            }
        }
        #[derive(Default)]
        pub struct PreviewState {
            pub watchers: crate::project::ProjectPreviewState,
        }
        impl PreviewState {
            pub fn stop_all(&mut self) {}
        }
    }
}
pub use sync_ls::LspClient;

use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

use reflexo::debug_loc::LspPosition;
use sync_ls::TypedLspClient;
use tinymist_project::{EntryResolver, ExportTarget, TaskWhen};
use tinymist_query::{CompletionFeat, PeriscopeArgs, PositionEncoding};
use tinymist_std::ImmutPath;
use tokio::sync::mpsc;
use typst::syntax::Source;

use actor::editor::EditorRequest;

pub enum ServerEvent {
    UnpinPrimaryByPreview,
}
#[derive(Debug, Clone, Default)]
pub struct ConstConfig {
    pub position_encoding: PositionEncoding,
    pub tokens_overlapping_token_support: bool,
    pub tokens_multiline_token_support: bool,
}
#[derive(Debug, Clone)]
pub struct LintFeat(pub TaskWhen);
impl LintFeat {
    pub fn when(&self) -> TaskWhen {
        self.0.clone()
    }
}
#[derive(Clone)]
pub struct Config {
    pub const_config: ConstConfig,
    pub entry_resolver: EntryResolver,
    pub has_default_entry_path: bool,
    pub support_html_in_markdown: bool,
    pub completion: CompletionFeat,
    pub color_theme: Option<String>,
    pub periscope_args: Option<PeriscopeArgs>,
    pub lint: LintFeat,
    pub export_target: ExportTarget,
    pub export: task::ExportUserConfig,
}
impl Config {
    pub fn export(&self) -> task::ExportUserConfig {
        self.export.clone()
    }
    pub fn inputs(&self) -> tinymist_project::ImmutDict {
        Arc::default()
    }
    pub fn certification_path(&self) -> Option<ImmutPath> {
        None
    }
    pub fn package_opts(&self) -> tinymist_world::args::CompilePackageArgs {
        Default::default()
    }
    pub fn typst_features(&self) -> Option<typst::Features> {
        None
    }
    pub fn fonts(&self) -> Arc<tinymist_world::font::FontResolverImpl> {
        Arc::new(tinymist_world::font::FontResolverImpl::new(vec![], Default::default(), vec![]))
    }
}

pub struct ServerState {
    pub client: TypedLspClient<Self>,
    pub route: route::ProjectRouteState,
    pub project: project::ProjectState,
    pub preview: tool::preview::PreviewState,
    pub pinning_by_user: bool,
    pub pinning_by_preview: bool,
    pub pinning_by_browsing_preview: bool,
    pub focusing: Option<ImmutPath>,
    pub implicit_position: Option<LspPosition>,
    pub ever_focusing_by_activities: bool,
    pub ever_manual_focusing: bool,
    pub config: Config,
    pub memory_changes: HashMap<Arc<Path>, Source>,
    pub editor_tx: mpsc::UnboundedSender<EditorRequest>,
}
impl ServerState {
    pub fn new(client: TypedLspClient<ServerState>, config: Config, editor_tx: mpsc::UnboundedSender<EditorRequest>) -> Self {
        let watchers = project::ProjectPreviewState::default();
        let project = Self::project(&config, editor_tx.clone(), client.clone(), watchers.clone());
        Self {
            client,
            route: Default::default(),
            project,
            preview: tool::preview::PreviewState { watchers },
            pinning_by_user: false,
            pinning_by_preview: false,
            pinning_by_browsing_preview: false,
            focusing: None,
            implicit_position: None,
            ever_focusing_by_activities: false,
            ever_manual_focusing: false,
            config,
            memory_changes: HashMap::new(),
            editor_tx,
        }
    }
    pub fn const_config(&self) -> &ConstConfig {
        &self.config.const_config
    }
    pub fn task_of(&mut self, path: ImmutPath) -> tinymist_world::TaskInputs {
        self.resolve_task(path)
    }
    pub fn entry_resolver(&self) -> &EntryResolver {
        &self.config.entry_resolver
    }
}
