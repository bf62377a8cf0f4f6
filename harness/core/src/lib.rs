//! Harness of the solver-based checks: every `prop_*` function is a property over the real subweight-core.
#![allow(dead_code)]
pub mod util;
pub mod terms;
pub mod compare;
pub mod report;
pub mod parsing;
pub mod commits;
