//! C34: what the program asks of the library.
use crate::{flag, may_refuse, output::cli, words};
use subweight_core::*;
use std::path::PathBuf;
use vs::world;

static mut CALL: Option<Call> = None;
static mut CALLS: usize = 0;
static mut FAILS: bool = false;
fn call() -> Option<Call> { unsafe { (*std::ptr::addr_of!(CALL)).clone() } }
fn calls() -> usize { unsafe { CALLS } }
fn row(name: &str, percent: f64) -> ExtrinsicDiff {
    let t = |v| Some(term::SimpleTerm::Scalar(v));
    let c = TermChange { old_v: Some(5), old: t(5), new_v: Some(6), new: t(6), scope: scope::SimpleScope::empty(), percent, change: RelativeChange::Changed, method: CompareMethod::Base };
    ExtrinsicDiff { name: name.into(), file: "given.rs".into(), change: TermDiff::Changed(c) }
}
/// Shown from 4, 20 and 60 percent on.
fn seen(c: Call) -> Result<TotalDiff, String> {
    unsafe { CALL = Some(c); CALLS += 1; }
    if unsafe { FAILS } { return Err("the comparison says no".into()) }
    Ok(vec![row("four", 4.0), row("twenty", 20.0), row("sixty", -60.0)])
}
fn start() { world::init(); vs::merge(false); answer(seen) }
/// Printable text; it stands after an `=` or is a value of its own.
fn text(n: &str, len: usize) -> String { String::from_utf8((0..len).map(|_| vs::u8s(n, 0x20, 0x7e)).collect()).unwrap() }
const METHODS: [(&str, CompareMethod); 5] = [("base", CompareMethod::Base), ("guess-worst", CompareMethod::GuessWorst), ("exact-worst", CompareMethod::ExactWorst), ("exact-asymptotic", CompareMethod::ExactAsymptotic), ("asymptotic", CompareMethod::Asymptotic)];
/// Options of all kinds with what they mean.
struct Asked { params: CompareParams, filter: FilterParams, args: Vec<String> }
fn switches(on: &[bool; 4]) -> Vec<String> {
    ["--ignore-errors", "--git-pull", "--git-force", "--offline"].iter().zip(on).filter(|(_, b)| **b).map(|(s, _)| s.to_string()).collect()
}
fn asked(method: usize, unit: usize, threshold: usize, on: [bool; 4], extrinsic: Option<String>, pallet: Option<String>) -> Asked {
    let mut args = words(&format!("--method={}", METHODS[method].0));
    if unit > 0 { args.push(format!("--unit={}", ["", "time", "proof"][unit])) }
    if threshold > 0 { args.push(format!("--threshold={}", ["", "0", "5.5", "60", "61"][threshold])) }
    if let Some(e) = &extrinsic { args.push(format!("--extrinsic={}", e)) }
    if let Some(p) = &pallet { args.push(format!("--pallet={}", p)) }
    args.extend(switches(&on));
    Asked {
        params: CompareParams { method: METHODS[method].1, unit: if unit == 2 { Dimension::Proof } else { Dimension::Time }, ignore_errors: on[0], git_pull: on[1], git_force: on[2], offline: on[3] },
        filter: FilterParams { threshold: [5.0, 0.0, 5.5, 60.0, 61.0][threshold], change: None, extrinsic, pallet }, args }
}
fn kept(c: &Call, a: &Asked) {
    vs::check(c.params.method == a.params.method, "another method");
    vs::check(c.params.unit == a.params.unit, "another unit");
    vs::check(c.params.ignore_errors == a.params.ignore_errors, "errors are ignored without being asked, or the other way round");
    vs::check(c.params.git_pull == a.params.git_pull, "another choice of pulling");
    vs::check(c.params.git_force == a.params.git_force, "another choice of forcing");
    vs::check(c.params.offline == a.params.offline, "another choice of staying offline");
    vs::check(c.filter.threshold == a.filter.threshold, "another threshold");
    vs::check(c.filter.change == a.filter.change, "another choice of changes");
    vs::check(c.filter.extrinsic == a.filter.extrinsic, "another extrinsic pattern");
    vs::check(c.filter.pallet == a.filter.pallet, "another pallet pattern");
}
fn shown(out: &str, a: &Asked, ok: bool) {
    for (n, p) in [("four", 4.0), ("twenty", 20.0), ("sixty", 60.0)] {
        vs::check(out.contains(n) == (ok && p >= a.filter.threshold), "a row is shown that should not be, or the other way round");
    }
}
fn commits(a: &Asked, old: String, new: Option<String>, repo: Option<String>, pattern: String, fails: bool) {
    unsafe { FAILS = fails; CALL = None; CALLS = 0 }
    let mut l = words("compare commits");
    l.extend(a.args.iter().cloned());
    if let Some(r) = &repo { l.push(format!("--repo={}", r)) }
    l.push(format!("--path-pattern={}", pattern));
    l.push("--".into());
    l.push(old.clone());
    if let Some(n) = &new { l.push(n.clone()) }
    let (r, out) = cli(&l);
    vs::check(calls() == 1, "not one comparison for one command");
    let c = call().unwrap();
    vs::check(c.commits.is_some(), "files are compared and not commits");
    kept(&c, a);
    let (r2, o2, n2, p2, max) = c.commits.clone().unwrap();
    vs::check(o2 == old, "another old revision");
    vs::check(n2 == new.unwrap_or("master".into()), "another new revision");
    vs::check(r2.to_str() == Some(&repo.unwrap_or(".".into())[..]), "another repository");
    vs::check(p2 == pattern, "another path pattern");
    vs::check(max == usize::MAX, "files are left out");
    vs::check(r.is_ok() == !fails, "a failure is not passed on");
    shown(&out, a, !fails);
    vs::cover(if fails { "failed" } else { "compared" });
}
fn texts(len: usize) {
    start();
    let which = vs::choose("which", 6);
    let t = text("t", vs::choose("length", len) + 1);
    let other = |k: usize, d: &str| if which == k { t.clone() } else { d.to_string() };
    let a = asked(0, 0, 0, [false; 4], if which == 4 { Some(t.clone()) } else { None }, if which == 5 { Some(t.clone()) } else { None });
    commits(&a, other(0, "v1"), if which == 1 { Some(t.clone()) } else { None }, if which == 2 { Some(t.clone()) } else { None }, other(3, "w/*.rs"), false);
}
/// Every text reaches the comparison unchanged.
#[no_mangle] pub extern "C" fn prop_c34_texts() { texts(4) }
#[no_mangle] pub extern "C" fn prop_c34_texts_long() { texts(8) }
/// Two texts at a time.
#[no_mangle] pub extern "C" fn prop_c34_pairs() {
    start();
    let (t, u) = (text("t", 3), text("u", 3));
    let a = asked(0, 0, 0, [false; 4], None, None);
    if flag("revisions") { commits(&a, t, Some(u), None, "p".into(), false) } else { commits(&a, "v".into(), None, Some(t), u, false) }
}
/// All switches.
#[no_mangle] pub extern "C" fn prop_c34_switches() {
    start();
    let on = [flag("ignore"), flag("pull"), flag("force"), flag("offline")];
    let a = asked(0, 0, 1, on, None, None);
    commits(&a, "v1".into(), Some("v2".into()), None, "p".into(), flag("fails"));
}
/// Methods, units and thresholds.
#[no_mangle] pub extern "C" fn prop_c34_choices() {
    start();
    let a = asked(vs::choose("method", 5), vs::choose("unit", 3), vs::choose("threshold", 5), [false; 4], None, None);
    commits(&a, "v1".into(), None, None, "p".into(), false);
}
// ---- files
/// Whole files: their calls, or nothing when they cannot be read.
const FILES: [(&str, Option<&str>, &[&str]); 4] = [
    ("a.rs", Some("impl WeightInfo for () { fn f() -> Weight { Weight::from_parts(1, 0) } fn g() -> Weight { Weight::from_parts(2, 0) } }"), &["f", "g"]),
    ("b.rs", Some("impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> { fn h() -> Weight { Weight::from_parts(3, 0) } }"), &["h"]),
    ("c.rs", Some("impl WeightInfo for () { fn f() -> Weight { \"x\" } }"), &[]),
    ("d.rs", None, &[]),
];
fn bad(k: usize) -> bool { k >= 2 }
fn list(n: &str, max: usize) -> Vec<usize> { (0..vs::choose(n, max + 1)).map(|_| vs::choose("file", 4)).collect() }
fn put(dir: &str) { world::mkdir(dir); for (n, c, _) in FILES { if let Some(c) = c { world::put(&format!("{}/{}", dir, n), c.as_bytes()) } } }
fn arg(dir: &str, l: &[usize]) -> Vec<String> { l.iter().map(|k| format!("{}/{}", dir, FILES[*k].0)).collect() }
fn read(l: &[usize]) -> Vec<String> { l.iter().flat_map(|k| FILES[*k].2.iter().map(move |f| format!("{}::{}", FILES[*k].0, f))).collect() }
fn files(max: usize) {
    start();
    put("o"); put("n");
    let on = [flag("ignore"), false, false, false];
    let a = asked(0, 0, 0, on, None, None);
    let (old, new) = (list("olds", max), list("news", max));
    unsafe { FAILS = false; CALL = None; CALLS = 0 }
    let mut l = words("compare files");
    l.extend(a.args.iter().cloned());
    l.push("--old".into()); l.extend(arg("o", &old));
    l.push("--new".into()); l.extend(arg("n", &new));
    let (r, out) = cli(&l);
    let refuse = !on[0] && old.iter().chain(&new).any(|k| bad(*k));
    vs::check(r.is_err() == refuse, "a file that cannot be read is accepted, or a good one refused");
    vs::check(calls() == if refuse { 0 } else { 1 }, "not one comparison for one command");
    shown(&out, &a, !refuse);
    if refuse { vs::cover("refused"); return }
    let c = call().unwrap();
    kept(&c, &a);
    vs::check(c.commits.is_none(), "commits are compared and not files");
    let (o, n) = c.files.unwrap();
    vs::check(o == read(&old), "other old calls");
    vs::check(n == read(&new), "other new calls");
    vs::cover(if on[0] { "lenient" } else { "strict" });
}
/// The files on the command line are the ones compared.
#[no_mangle] pub extern "C" fn prop_c34_files() { files(2) }
#[no_mangle] pub extern "C" fn prop_c34_files_long() { files(3) }
/// `parse files` says whether all files can be read.
#[no_mangle] pub extern "C" fn prop_c34_parse() {
    start();
    put("o");
    let l = list("files", 3);
    vs::assume(!l.is_empty());
    let mut a = words("parse files");
    a.extend(arg("o", &l));
    let (r, out) = cli(&a);
    let refuse = l.iter().any(|k| bad(*k));
    vs::check(r.is_err() == refuse, "a file that cannot be read is accepted, or a good one refused");
    vs::check(!refuse || !out.to_lowercase().contains("success"), "success is reported for files that cannot be read");
    let numbers = |l: &str| l.split(|c: char| !c.is_ascii_digit()).filter(|d| !d.is_empty()).map(|d| d.to_string()).collect::<Vec<_>>();
    vs::check(refuse || out.lines().filter(|l| l.to_lowercase().contains("success")).all(|s| numbers(s) == [l.len().to_string()]), "another number of files is reported");
    vs::check(calls() == 0, "a comparison without being asked");
    vs::cover(if refuse { "refused" } else { "accepted" });
}
/// Formats that the program cannot print are refused and never shown as something else.
#[no_mangle] pub extern "C" fn prop_c34_formats() {
    start();
    let t: String = (0..4).map(|_| vs::u8s("t", b'a', b'z') as char).collect();
    let known = ["json", "human", "csv", "markdown", "brief-human"];
    let k = vs::choose("format", 6);
    let f = if k == 5 { t } else { known[k].to_string() };
    if k == 5 { may_refuse(true) }
    unsafe { FAILS = false }
    let (r, out) = cli(&words(&format!("compare commits v --path-pattern=p --method=base --format={}", f)));
    let can = ["human", "csv", "markdown"].iter().any(|x| *x == f);
    if k == 5 { vs::check(f == "json", "an unknown format is accepted") }
    vs::check(r.is_ok() == can, "a format is not printed, or an unsupported one is");
    vs::check(out.contains("sixty") == can, "rows in another format");
    vs::cover(if can { "printed" } else { "unsupported" });
}
