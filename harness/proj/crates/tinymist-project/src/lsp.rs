//! In place of the LSP feature set: no fonts, and a registry without a network.
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::Arc;

use crate::world::font::FontResolverImpl;
use crate::{CompiledArtifact, Interrupt};
use tinymist_std::ImmutPath;
use tinymist_task::ExportTarget;
use tinymist_world::args::*;
use tinymist_world::package::{PackageError, PackageRegistry, PackageSpec, RegistryPathMapper};
use tinymist_world::vfs::{system::SystemAccessModel, Vfs};
use tinymist_world::{CompileSnapshot, CompilerFeat, CompilerUniverse, CompilerWorld, EntryState, WorldComputeGraph};
use typst::foundations::Dict;
use typst::utils::LazyHash;
use typst::Features;

#[derive(Debug, Clone, Copy)]
pub struct LspCompilerFeat;
impl CompilerFeat for LspCompilerFeat {
    type FontResolver = FontResolverImpl;
    type AccessModel = SystemAccessModel;
    type Registry = HttpRegistry;
}

#[derive(Debug, Default)]
pub struct HttpRegistry {
    path: Option<ImmutPath>,
    cache: Option<ImmutPath>,
}
impl HttpRegistry {
    pub fn package_path(&self) -> Option<&ImmutPath> {
        self.path.as_ref()
    }
    pub fn package_cache_path(&self) -> Option<&ImmutPath> {
        self.cache.as_ref()
    }
}
impl PackageRegistry for HttpRegistry {
    fn revision(&self) -> Option<NonZeroUsize> {
        NonZeroUsize::new(1)
    }
    fn resolve(&self, spec: &PackageSpec) -> Result<Arc<Path>, PackageError> {
        let sub = format!("{}/{}/{}", spec.namespace, spec.name, spec.version);
        let dirs = [&self.path, &self.cache];
        let mut dirs = dirs.into_iter().flatten().map(|d| d.join(&sub));
        match dirs.find(|d| d.exists()) {
            Some(d) => Ok(d.into()),
            None => Err(PackageError::NotFound(spec.clone())),
        }
    }
}

pub type LspUniverse = CompilerUniverse<LspCompilerFeat>;
pub type LspWorld = CompilerWorld<LspCompilerFeat>;
pub type LspCompileSnapshot = CompileSnapshot<LspCompilerFeat>;
pub type LspCompiledArtifact = CompiledArtifact<LspCompilerFeat>;
pub type LspComputeGraph = Arc<WorldComputeGraph<LspCompilerFeat>>;
pub type LspInterrupt = Interrupt<LspCompilerFeat>;
pub type ImmutDict = Arc<LazyHash<Dict>>;

pub struct LspUniverseBuilder;
impl LspUniverseBuilder {
    pub fn build(
        entry: EntryState,
        export_target: ExportTarget,
        features: Features,
        inputs: ImmutDict,
        package_registry: HttpRegistry,
        font_resolver: Arc<FontResolverImpl>,
    ) -> LspUniverse {
        let registry = Arc::new(package_registry);
        let resolver = Arc::new(RegistryPathMapper::new(registry.clone()));
        let features = if matches!(export_target, ExportTarget::Html) {
            Features::from_iter([typst::Feature::Html])
        } else {
            features
        };
        LspUniverse::new_raw(entry, features, Some(inputs), Vfs::new(resolver, SystemAccessModel {}), registry, font_resolver)
    }
    pub fn resolve_package(_: Option<ImmutPath>, args: Option<&CompilePackageArgs>) -> HttpRegistry {
        HttpRegistry {
            path: args.and_then(|a| Some(a.package_path.clone()?.into())),
            cache: args.and_then(|a| Some(a.package_cache_path.clone()?.into())),
        }
    }
}
