use crate::introspection::Introspector;
use crate::routines::Routines;
use crate::World;
use comemo::{Tracked, TrackedMut};
use std::marker::PhantomData;

#[derive(Debug, Default, Clone)]
pub struct Route<'a>(PhantomData<&'a ()>);
#[comemo::track]
impl<'a> Route<'a> {
    pub fn depth(&self) -> usize {
        0
    }
}
#[derive(Debug, Default, Clone)]
pub struct Traced;
#[comemo::track]
impl Traced {
    pub fn get(&self) -> u64 {
        0
    }
}
#[derive(Debug, Default, Clone)]
pub struct Sink;
#[comemo::track]
impl Sink {
    pub fn delay(&mut self, _n: u64) {}
}
pub struct Engine<'a> {
    pub routines: &'a Routines,
    pub world: Tracked<'a, dyn World + 'a>,
    pub introspector: Tracked<'a, Introspector>,
    pub traced: Tracked<'a, Traced>,
    pub sink: TrackedMut<'a, Sink>,
    pub route: Route<'a>,
}
