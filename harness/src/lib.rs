//! Explicit-state exploration engine and reference-model types shared by all property explorers.
pub mod engine;
pub mod guard;
pub mod hist;
pub mod model;
pub use engine::*;
pub mod ops;
pub use model::*;
