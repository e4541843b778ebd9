use crate::{introspection::Introspector, model::DocumentInfo};
use ecow::EcoString;
use std::num::NonZeroUsize;
#[derive(Debug, Default, Clone, Copy, PartialEq, PartialOrd)]
pub struct Abs(f64);
impl Abs {
    pub fn pt(v: f64) -> Self {
        Self(v)
    }
    pub fn to_pt(self) -> f64 {
        self.0
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq)]
pub struct Point {
    pub x: Abs,
    pub y: Abs,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Position {
    pub page: NonZeroUsize,
    pub point: Point,
}
#[derive(Debug, Default, Clone)]
pub struct Frame;
#[derive(Debug, Default, Clone)]
pub struct Page {
    pub frame: Frame,
}
#[derive(Debug, Clone, Default)]
pub struct PagedDocument {
    pub pages: Vec<Page>,
    pub info: DocumentInfo,
    pub introspector: Introspector,
    #[doc(hidden)]
    pub text: EcoString,
}
