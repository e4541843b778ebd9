use crate::foundations::Bytes;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Font(Bytes, u32);
impl Font {
    pub fn new(data: Bytes, index: u32) -> Option<Self> {
        Some(Self(data, index))
    }
    pub fn data(&self) -> &Bytes {
        &self.0
    }
    pub fn index(&self) -> u32 {
        self.1
    }
    pub fn info(&self) -> &FontInfo {
        unimplemented!()
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct FontVariant;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Coverage(Vec<u32>);
impl Coverage {
    pub fn from_vec(v: Vec<u32>) -> Self {
        Self(v)
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        self.0.iter().copied()
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FontFlags(u32);
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FontInfo {
    pub family: String,
    pub variant: FontVariant,
    pub flags: FontFlags,
    pub coverage: Coverage,
}
impl FontInfo {
    pub fn new(_data: &[u8], _index: u32) -> Option<Self> {
        Some(Self::default())
    }
    pub fn iter(data: &[u8]) -> impl Iterator<Item = FontInfo> + '_ {
        Self::new(data, 0).into_iter()
    }
}
#[derive(Debug, Default, Clone, Hash)]
pub struct FontBook {
    families: BTreeMap<String, Vec<usize>>,
    infos: Vec<FontInfo>,
}
impl FontBook {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_infos(infos: impl IntoIterator<Item = FontInfo>) -> Self {
        let mut book = Self::new();
        for i in infos {
            book.push(i);
        }
        book
    }
    pub fn push(&mut self, info: FontInfo) {
        let at = self.infos.len();
        self.families.entry(info.family.to_lowercase()).or_default().push(at);
        self.infos.push(info);
    }
    pub fn info(&self, index: usize) -> Option<&FontInfo> {
        self.infos.get(index)
    }
    pub fn select(&self, family: &str, _v: FontVariant) -> Option<usize> {
        self.families.get(family)?.first().copied()
    }
    pub fn select_fallback(&self, _like: Option<&FontInfo>, _v: FontVariant, _t: &str) -> Option<usize> {
        (!self.infos.is_empty()).then_some(0)
    }
    pub fn families(&self) -> impl Iterator<Item = (&str, Vec<&FontInfo>)> + '_ {
        self.families.iter().map(|(k, v)| (k.as_str(), v.iter().map(|&i| &self.infos[i]).collect()))
    }
}
