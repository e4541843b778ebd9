#![allow(missing_docs, unused, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
