//! Property-based checks of toon-rs: engine, generators, reference model and properties.
pub mod api;
pub mod doc;
pub mod engine;
pub mod generate;
#[cfg(feature = "guided")]
pub mod guided;
pub mod older;
pub mod props;
pub mod refmodel;
pub mod runner;
pub mod soup;
pub mod typed;
pub mod words;
