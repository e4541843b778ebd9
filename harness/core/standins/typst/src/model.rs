use ecow::EcoString;
#[derive(Debug, Default, Clone, PartialEq, Hash)]
pub struct DocumentInfo {
    pub title: Option<EcoString>,
    pub author: Vec<EcoString>,
    pub description: Option<EcoString>,
    pub keywords: Vec<EcoString>,
}
impl DocumentInfo {
    pub(crate) fn of(text: &str) -> Self {
        let title = text.split_whitespace().find_map(|w| w.strip_prefix("title:")).map(EcoString::from);
        Self { title, ..Default::default() }
    }
}
