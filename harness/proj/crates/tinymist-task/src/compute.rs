//! In place of exporting, which needs typst itself: the document's text is its file. An export waits until the harness lets it go on.
use crate::ExportPdfTask;
use std::sync::{Arc, Condvar, Mutex};
use tinymist_std::error::prelude::*;
use tinymist_std::typst::{TypstDocument, TypstPagedDocument};
use tinymist_world::{CompilerFeat, ExportComputation, WorldComputeGraph};
use typst::foundations::Bytes;
use typst::layout::Abs;

#[derive(Default)]
pub struct Gate {
    pub open: bool,
    /// Which of those waiting may go, by when they came.
    pub go: Vec<u64>,
    pub queue: Vec<u64>,
    next: u64,
}
pub static GATE: Mutex<Gate> = Mutex::new(Gate { open: true, go: vec![], queue: vec![], next: 0 });
pub static GOES: Condvar = Condvar::new();
fn pass() {
    let mut g = GATE.lock().unwrap();
    let me = g.next;
    g.next += 1;
    g.queue.push(me);
    while !g.open && !g.go.contains(&me) {
        g = GOES.wait(g).unwrap();
    }
    g.queue.retain(|x| *x != me);
    g.go.retain(|x| *x != me);
}

pub struct PdfExport;
impl<F: CompilerFeat> ExportComputation<F, TypstPagedDocument> for PdfExport {
    type Output = Bytes;
    type Config = ExportPdfTask;
    fn run(_: &Arc<WorldComputeGraph<F>>, doc: &Arc<TypstPagedDocument>, _: &ExportPdfTask) -> Result<Bytes> {
        pass();
        Ok(Bytes::from_string(doc.text.clone()))
    }
}
pub struct TextExport;
impl TextExport {
    pub fn run_on_doc(doc: &TypstDocument) -> Result<String> {
        pass();
        Ok(match doc {
            TypstDocument::Paged(d) => d.text.to_string(),
            TypstDocument::Html(d) => d.text.to_string(),
        })
    }
}
pub fn get_page_selection(_: &crate::ExportTask) -> Result<(bool, Abs)> {
    Ok((true, Abs::default()))
}
