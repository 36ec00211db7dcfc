//! Harnesses: each `h_*` runs the real xprs code on symbolic inputs and asserts one property.
pub mod refm;
pub mod sym;
pub mod util;
#[cfg(feature = "repl")]
pub mod repl;
pub mod props;
pub use props::ENTRIES;
