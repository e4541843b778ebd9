use crate::{introspection::Introspector, model::DocumentInfo};
use ecow::EcoString;
#[derive(Debug, Default, Clone)]
pub struct HtmlElement;
#[derive(Debug, Clone)]
pub struct HtmlDocument {
    pub root: HtmlElement,
    pub info: DocumentInfo,
    pub introspector: Introspector,
    #[doc(hidden)]
    pub text: EcoString,
}
