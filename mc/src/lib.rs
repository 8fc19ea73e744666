//! Explicit-state model checking of the poker crate: bounded exhaustive
//! exploration of the real implementation against a reference model.

pub mod cli;
pub mod engine;
pub mod env;
pub mod modes;
pub mod refm;
