pub use typst::syntax::*;
