//! Harness of the solver-based checks: the web server's pages and cache.
#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/web.rs"));
#[cfg(not(feature = "replay"))]
pub mod ovr;
pub mod listing;
pub mod names;
pub mod page;
pub mod server;
