//! In place of the semantic tokens: they need typst's syntax trees.
use std::sync::Arc;
#[derive(Debug, Clone, serde::Serialize)]
pub struct SemanticTokensLegend {
    pub token_types: Vec<String>,
    pub token_modifiers: Vec<String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OffsetEncoding {
    Utf8,
    Utf16,
}
#[derive(Debug, Clone)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start_character: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers: u32,
}
pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
    unimplemented!()
}
pub fn get_semantic_tokens_full(_: &typst::syntax::Source, _: OffsetEncoding) -> Vec<SemanticToken> {
    unimplemented!()
}
