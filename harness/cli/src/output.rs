//! C23: what the program prints.
use crate::{flag, program, words};
use subweight_core::{parse::pallet::{parse_files, try_parse_files}, term::SimpleTerm, *};
use std::path::PathBuf;
use vs::{text::same, world};

pub fn cli(args: &[String]) -> (Result<(), String>, String) {
    world::capture();
    let mut a = vec!["subweight".to_string()];
    a.extend(args.iter().cloned());
    let r = program::run(a);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    (r, world::captured())
}
fn digits(n: usize) -> String { (0..n).map(|i| vs::u8s("d", if i == 0 { b'1' } else { b'0' }, b'9') as char).collect() }
const METHODS: [(&str, CompareMethod); 5] = [("base", CompareMethod::Base), ("guess-worst", CompareMethod::GuessWorst), ("exact-worst", CompareMethod::ExactWorst), ("exact-asymptotic", CompareMethod::ExactAsymptotic), ("asymptotic", CompareMethod::Asymptotic)];
const UNITS: [(&str, Dimension); 2] = [("time", Dimension::Time), ("proof", Dimension::Proof)];

// ---- the cells a row should have
fn painted(s: &str, colour: u8, plain: bool) -> String { if plain || colour == 0 { s.to_string() } else { format!("{}{}\x1b[0m", match colour { 1 => "\x1b[31m", 2 => "\x1b[32m", _ => "\x1b[37m" }, s) } }
fn change(c: &TermChange, plain: bool) -> String {
    match c.change {
        RelativeChange::Unchanged => "Unchanged".to_string(),
        RelativeChange::Added => painted("Added", 1, plain),
        RelativeChange::Removed => painted("Removed", 2, plain),
        RelativeChange::Changed => {
            let p = c.percent;
            let colour = if p > 0.0 { 1 } else if p < 0.0 { 2 } else { 7 };
            painted(&format!("{:+5.2}", p), colour, plain)
        }
    }
}
struct Want { unit: Dimension, csv: bool, plain: bool, terms: bool, strip: &'static str }
fn cells(w: &Want, r: &ExtrinsicDiff) -> Vec<String> {
    let file = if w.csv { r.file.clone() } else { r.file.strip_prefix(w.strip).unwrap_or(&r.file).to_string() };
    match r.term() {
        None => vec![file, r.name.clone(), "-".into(), "-".into(), "ERROR".into()],
        Some(c) => {
            let v = |v: Option<u128>| v.map(|v| w.unit.fmt_value(v)).unwrap_or_default();
            let mut l = vec![file, r.name.clone(), v(c.old_v), v(c.new_v), change(c, w.plain)];
            let t = |t: &Option<SimpleTerm>| t.as_ref().map(|t| t.to_string()).unwrap_or("-".into());
            if w.terms { l.push(t(&c.old)); l.push(t(&c.new)); }
            l
        }
    }
}
/// The cells of every line but the header.
fn lines(out: &str, csv: bool) -> (usize, Vec<Vec<String>>) {
    let mut l: Vec<Vec<String>> = Vec::new();
    for s in out.lines() {
        if csv { if !s.is_empty() { l.push(s.split(',').map(|c| c.trim().to_string()).collect()) } }
        // comfy_table draws other lines with + and =
        else if s.starts_with('|') && !s.starts_with("|-") && !s.starts_with("|=") { let s = s.trim().trim_matches('|'); l.push(s.split('|').map(|c| c.trim().to_string()).collect()) }
    }
    if l.is_empty() { return (0, l) }
    let head = l.remove(0);
    (head.len(), l)
}
fn listed(w: &Want, out: &str, rows: &TotalDiff) {
    let (width, lines) = lines(out, w.csv);
    let rows: Vec<&ExtrinsicDiff> = rows.iter().filter(|r| !w.csv || r.term().is_some()).collect();
    vs::check(lines.len() == rows.len(), "not one line per row");
    for r in rows {
        let want = cells(w, r);
        let at: Vec<&Vec<String>> = lines.iter().filter(|l| l.len() > 1 && l[0] == want[0] && l[1] == want[1]).collect();
        vs::check(at.len() == 1, "a row has no line of its own");
        let got = at[0];
        for k in 2..want.len() {
            vs::check(got.len() > k && same(&got[k], want[k].trim()), ["", "", "another old value", "another new value", "another change", "another old equation", "another new equation"][k]);
        }
        vs::check(got.len() == width || r.term().is_none(), "a line does not fit the header");
        vs::cover(match r.term() { None => "error", Some(c) => match c.change { RelativeChange::Unchanged => "unchanged", RelativeChange::Added => "added", RelativeChange::Removed => "removed", RelativeChange::Changed => "changed" } });
    }
}
// ---- results given to the program
struct Opt { fmt: usize, method: usize, unit: usize, plain: bool, terms: bool, strip: bool, commits: bool }
fn args(o: &Opt) -> Vec<String> {
    let mut a = words(if o.commits { "compare commits a b --path-pattern x" } else { "compare files" });
    a.extend(words(&format!("--method {} --unit {} --format {}", METHODS[o.method].0, UNITS[o.unit].0, ["human", "markdown", "csv"][o.fmt])));
    if o.plain { a.push("--no-color".into()) }
    if o.terms { a.push("--print-terms".into()) }
    if o.strip { a.push("--strip-path-prefix".into()); a.push("^p_".into()) }
    a
}
fn want(o: &Opt) -> Want { Want { unit: UNITS[o.unit].1, csv: o.fmt == 2, plain: o.plain, terms: o.terms, strip: if o.strip { "p_" } else { "" } } }
fn everything() -> FilterParams { FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None } }
static mut ROWS: Vec<ExtrinsicDiff> = Vec::new();
fn given(_: Call) -> Result<TotalDiff, String> { Ok(unsafe { (*std::ptr::addr_of!(ROWS)).clone() }) }
const VARIED: [&str; 2] = ["n", "o"];
/// A row of a kind: failed, unchanged, added, removed, changed, changed with a warning.
fn row(kind: usize, k: usize, terms: bool, value: &dyn Fn(&str) -> u128) -> ExtrinsicDiff {
    use subweight_kinds::*;
    let (o, n) = (value("old"), value("new"));
    let pc = f64::from_bits(vs::u64s("percent", 0, u64::MAX));
    let t = |n: &str| if terms { mul(var(n), add(num(7), var("m"))) } else { num(5) };
    let (old, new) = (Some((o, t(VARIED[k % 2]))), Some((n, t("z"))));
    let (old, new, change, percent) = match kind {
        1 => (old.clone(), old, RelativeChange::Unchanged, 0.0),
        2 => (None, new, RelativeChange::Added, 100.0),
        3 => (old, None, RelativeChange::Removed, -100.0),
        _ => { vs::assume(!pc.is_nan()); (old, new, RelativeChange::Changed, pc) }
    };
    let name = ["f", "g", "f"][k].to_string();
    let file = ["p_a.rs", "p_a.rs", "b.rs"][k].to_string();
    let c = TermChange { old_v: old.as_ref().map(|x| x.0), old: old.map(|x| x.1), new_v: new.as_ref().map(|x| x.0), new: new.map(|x| x.1), scope: scope::SimpleScope::empty().with_var("z", SimpleTerm::Scalar(1)), percent, change, method: CompareMethod::Base };
    ExtrinsicDiff { name, file, change: match kind { 0 => TermDiff::Failed("bad, | x".into()), 5 => TermDiff::Warning(c, "hm, | x".into()), _ => TermDiff::Changed(c) } }
}
mod subweight_kinds {
    use super::*;
    pub fn num(v: u128) -> SimpleTerm { SimpleTerm::Scalar(v) }
    pub fn var(n: &str) -> SimpleTerm { SimpleTerm::Var(n.into()) }
    pub fn mul(a: SimpleTerm, b: SimpleTerm) -> SimpleTerm { SimpleTerm::Mul(Box::new(a), Box::new(b)) }
    pub fn add(a: SimpleTerm, b: SimpleTerm) -> SimpleTerm { SimpleTerm::Add(Box::new(a), Box::new(b)) }
}
fn print(o: &Opt, extra: &[String], rows: Vec<ExtrinsicDiff>, f: &FilterParams) {
    answer(given);
    unsafe { ROWS = rows.clone() }
    let mut a = args(o);
    a.extend(extra.iter().cloned());
    if !o.commits { a.extend(words("--old --new")) }
    let (r, out) = cli(&a);
    vs::check(r.is_ok(), "the output fails");
    listed(&want(o), &out, &filter_changes(rows, f));
}
fn none() -> Vec<String> { words("--threshold 0") }
/// One row, all values and percentages.
#[no_mangle] pub extern "C" fn prop_c23_values() {
    world::init(); vs::merge(false);
    let o = Opt { fmt: vs::choose("format", 3), method: 0, unit: vs::choose("unit", 2), plain: flag("plain"), terms: false, strip: false, commits: flag("commits") };
    let r = row(vs::choose("kind", 6), 0, false, &|n| vs::u128s(n, 0, u128::MAX));
    print(&o, &none(), vec![r], &everything());
}
fn small(n: &str) -> u128 { vs::u64s(n, 2, 900) as u128 }
/// Two and three rows of all kinds.
#[no_mangle] pub extern "C" fn prop_c23_rows() {
    world::init(); vs::merge(false);
    let o = Opt { fmt: vs::choose("format", 3), method: 0, unit: 0, plain: true, terms: false, strip: false, commits: false };
    let rows = (0..3).map(|k| row(vs::choose("kind", 6), k, false, &small)).collect();
    print(&o, &none(), rows, &everything());
}
/// The options.
#[no_mangle] pub extern "C" fn prop_c23_options() {
    world::init(); vs::merge(false);
    let o = Opt { fmt: vs::choose("format", 3), method: vs::choose("method", 5), unit: vs::choose("unit", 2), plain: flag("plain"), terms: flag("terms"), strip: flag("strip"), commits: false };
    let rows = vec![row(vs::choose("kind", 6), 0, true, &small), row(4, 2, true, &small)];
    print(&o, &none(), rows, &everything());
}
/// Thresholds and kinds.
#[no_mangle] pub extern "C" fn prop_c23_filter() {
    world::init(); vs::merge(false);
    let o = Opt { fmt: vs::choose("format", 3), method: 0, unit: 0, plain: true, terms: false, strip: false, commits: flag("commits") };
    let t = vs::choose("threshold", 5);
    let names = ["unchanged", "Added", "REMOVED", "changed"];
    let kinds = [RelativeChange::Unchanged, RelativeChange::Added, RelativeChange::Removed, RelativeChange::Changed];
    let (sel, change): (Vec<&str>, _) = match vs::choose("selected", 6) { 0 => (vec![], None), 5 => (vec![names[1], names[3]], Some(vec![kinds[1], kinds[3]])), k => (vec![names[k - 1]], Some(vec![kinds[k - 1]])) };
    let mut a = words(&format!("--threshold {}", ["0", "5", "33.3", "100", "1e3"][t]));
    for s in &sel { a.push("--change".into()); a.push(s.to_string()) }
    let f = FilterParams { threshold: [0.0, 5.0, 33.3, 100.0, 1e3][t], change, extrinsic: None, pallet: None };
    print(&o, &a, vec![row(vs::choose("kind", 6), 0, false, &small)], &f);
}
// ---- from files to output
const TEXTS: [(Option<&str>, Option<&str>); 8] = [(Some("5000"), Some("5000")), (None, Some("999")), (Some("1234567"), None), (Some("1000"), Some("1001")), (Some("3"), Some("1")), (Some("4000000"), Some("7000000000000")), (Some("0"), Some("9")), (Some("340282366920938463463374607431768211456"), Some("1"))];
fn weight(name: &str, v: &str) -> String { format!("fn {}() -> Weight {{ Weight::from_parts({}, {}) }}", name, v, v) }
/// A whole run on files, with and without a call that cannot be read.
#[no_mangle] pub extern "C" fn prop_c23_files() {
    world::init();
    let o = Opt { fmt: vs::choose("format", 3), method: vs::choose("method", 5), unit: vs::choose("unit", 2), plain: true, terms: false, strip: false, commits: false };
    let ((a, b), (c, d)) = (TEXTS[vs::choose("text", 8)], TEXTS[vs::choose("text", 4)]);
    let file = |x: Option<&str>, y: Option<&str>| format!("impl WeightInfo for () {{ {} {} }}", x.map(|v| weight("f", v)).unwrap_or_default(), y.map(|v| weight("g", v)).unwrap_or_default());
    world::put("o/p_a.rs", file(a, c).as_bytes()); world::put("n/p_a.rs", file(b, d).as_bytes());
    world::put("o/b.rs", file(None, c).as_bytes()); world::put("n/b.rs", file(None, c).as_bytes());
    let ignore = flag("ignore");
    let (old, new): (Vec<PathBuf>, Vec<PathBuf>) = (["o/p_a.rs", "o/b.rs"].iter().map(PathBuf::from).collect(), ["n/p_a.rs", "n/b.rs"].iter().map(PathBuf::from).collect());
    let p = CompareParams { method: METHODS[o.method].1, unit: UNITS[o.unit].1, ignore_errors: ignore, git_pull: false, git_force: false, offline: false };
    let load = |l: &[PathBuf]| if ignore { Ok(try_parse_files(l)) } else { parse_files(l) };
    let rows = match (load(&old), load(&new)) { (Ok(x), Ok(y)) => compare_files(x, y, &p, &everything()).ok(), _ => None };
    let mut l = args(&o);
    l.extend(words("--threshold 0 --old o/p_a.rs o/b.rs --new n/p_a.rs n/b.rs"));
    if ignore { l.push("--ignore-errors".into()) }
    let (r, out) = cli(&l);
    vs::check(r.is_ok() == rows.is_some(), "a comparison that fails is shown, or one that succeeds is not");
    if let Some(rows) = rows { listed(&want(&o), &out, &rows) } else { vs::check(!out.contains("p_a.rs"), "rows without a result"); vs::cover("failed") }
}
