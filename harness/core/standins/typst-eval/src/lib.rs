use comemo::{Tracked, TrackedMut};
use typst::diag::SourceResult;
use typst::engine::{Route, Sink, Traced};
use typst::foundations::Module;
use typst::routines::Routines;
use typst::syntax::Source;
use typst::World;
pub fn eval(_: &Routines, _: Tracked<dyn World + '_>, _: Tracked<Traced>, _: TrackedMut<Sink>, _: Tracked<Route>, _: &Source) -> SourceResult<Module> {
    Ok(Module)
}
