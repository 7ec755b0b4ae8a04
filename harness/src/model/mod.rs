//! Reference models: plain strings, no trees, no indexes.
pub mod text;
#[cfg(feature = "table")]
pub mod table;
#[cfg(feature = "editor")]
pub mod editor;
