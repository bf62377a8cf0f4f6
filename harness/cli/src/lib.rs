//! Harness of the solver-based checks: the command line program, run on modelled files.
#![allow(dead_code)]
pub mod program {
    #![allow(unused)]
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
    static mut ARGS: Vec<String> = Vec::new();
    /// The arguments come from the harness.
    impl MainCmd {
        fn parse() -> Self {
            let args = unsafe { (*std::ptr::addr_of!(ARGS)).clone() };
            match <Self as Parser>::try_parse_from(args) { Ok(c) => c, Err(e) => { super::refused(e.use_stderr()); unreachable!() } }
        }
    }
    /// Runs the program.
    pub fn run(args: Vec<String>) -> Result<(), String> { unsafe { ARGS = args } main().map_err(|e| e.to_string()) }
}
use std::sync::atomic::{AtomicBool, Ordering};
/// What happens when the arguments are refused.
static MAY_REFUSE: AtomicBool = AtomicBool::new(false);
pub fn may_refuse(on: bool) { MAY_REFUSE.store(on, Ordering::Relaxed) }
pub fn refused(_error: bool) { vs::check(MAY_REFUSE.load(Ordering::Relaxed), "the arguments are refused"); vs::cover("refused"); vs::end() }
pub fn words(s: &str) -> Vec<String> { s.split_whitespace().map(|w| w.to_string()).collect() }
pub fn flag(n: &str) -> bool { vs::choose(n, 2) == 1 }
pub mod output;
pub mod request;
