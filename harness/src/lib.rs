//! Symbolic harnesses over the real yaml-peg crate (symbolic build).
#[path = "rt_sym.rs"]
pub mod rt;
pub mod all;
