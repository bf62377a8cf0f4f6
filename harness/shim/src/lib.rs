//! The library, with the comparisons under the control of the harness.
pub use core_real::*;
use parse::pallet::ChromaticExtrinsic;
use std::path::{Path, PathBuf};
/// A comparison that the program asks for.
#[derive(Clone)]
pub struct Call { pub commits: Option<(PathBuf, String, String, String, usize)>, pub files: Option<(Vec<String>, Vec<String>)>, pub params: CompareParams, pub filter: FilterParams }
pub type Hook = fn(Call) -> Result<TotalDiff, String>;
static mut HOOK: Option<Hook> = None;
fn hook() -> Option<Hook> { unsafe { *std::ptr::addr_of!(HOOK) } }
/// Answers the comparisons of the program.
pub fn answer(h: Hook) { unsafe { HOOK = Some(h) } }
/// The calls of some files, as `file::call`.
fn calls(l: &[ChromaticExtrinsic]) -> Vec<String> { l.iter().map(|e| format!("{}::{}", e.pallet, e.name)).collect() }
type R = Result<TotalDiff, Box<dyn std::error::Error>>;
pub fn compare_files(olds: Vec<ChromaticExtrinsic>, news: Vec<ChromaticExtrinsic>, params: &CompareParams, filter: &FilterParams) -> R {
    match hook() { Some(h) => h(Call { commits: None, files: Some((calls(&olds), calls(&news))), params: params.clone(), filter: filter.clone() }).map_err(|e| e.into()), None => core_real::compare_files(olds, news, params, filter) }
}
pub fn compare_commits(repo: &Path, old: &str, new: &str, params: &CompareParams, filter: &FilterParams, path_pattern: &str, max_files: usize) -> R {
    match hook() {
        Some(h) => h(Call { commits: Some((repo.to_path_buf(), old.into(), new.into(), path_pattern.into(), max_files)), files: None, params: params.clone(), filter: filter.clone() }).map_err(|e| e.into()),
        None => core_real::compare_commits(repo, old, new, params, filter, path_pattern, max_files),
    }
}
