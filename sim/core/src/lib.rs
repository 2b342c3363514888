//! Simulation core shared by the scenarios: choices, shrinking.
pub mod chooser;
pub mod deadly;
pub mod shrink;
