//! Shared parts of the checks: engine, geometry, trees of every configuration, histories.
pub mod alloc;
pub mod cli;
pub mod dyntree;
pub mod engine;
pub mod geo;
pub mod hist;
