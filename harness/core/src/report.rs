//! C18 - C22: the result of a comparison: rows, filtering, sorting, percentages, printed quantities.
use crate::compare::{chroma, nofilter, params, ranges};
use crate::terms::number;
use crate::util::*;
use subweight_core::parse::pallet::{ChromaticExtrinsic, ComponentRange};

// ---- C18
fn letter(tag: &str, lo: u8, hi: u8) -> String { String::from_utf8(vec![vs::u8s(tag, lo, hi)]).unwrap() }
struct In { file: String, name: String, v: u128 }
fn distinct(l: &[In]) {
    for i in 0..l.len() { for j in 0..i { vs::assume(!(l[i].file == l[j].file && l[i].name == l[j].name)); } }
}
fn exts(l: &[In]) -> Vec<ChromaticExtrinsic> { l.iter().map(|i| chroma(&i.name, &i.file, CT::Scalar(i.v), None)).collect() }
fn values(r: &ExtrinsicDiff) -> Option<(Option<u128>, Option<u128>)> { match &r.change { TermDiff::Changed(c) | TermDiff::Warning(c, _) => Some((c.old_v, c.new_v)), TermDiff::Failed(_) => None } }
fn covers(rows: &TotalDiff, olds: &[In], news: &[In], want: &dyn Fn(&In) -> bool) {
    for (i, r) in rows.iter().enumerate() {
        for s in &rows[..i] { vs::check(!(r.file == s.file && r.name == s.name), "two rows for the same call"); }
        let f = |l: &[In]| l.iter().find(|x| x.file == r.file && x.name == r.name).map(|x| x.v);
        let (o, n) = (f(olds), f(news));
        vs::check(o.is_some() || n.is_some(), "a row for a call that does not exist");
        match values(r) { Some(v) => vs::check(v == (o, n), "a row compares other calls"), None => vs::check(false, "a call cannot be compared") }
    }
    for x in olds.iter().chain(news) {
        let has = rows.iter().any(|r| r.file == x.file && r.name == x.name);
        vs::check(has == want(x), "a selected call has no row, or another call has one");
    }
}
fn input(tag: &str, v: u128) -> In { In { file: letter(&format!("{}file", tag), b'p', b'r'), name: letter(&format!("{}name", tag), b'a', b'c'), v } }
fn pairs(no: usize, nn: usize) {
    let olds: Vec<In> = (0..no).map(|i| input("o", i as u128 + 1)).collect();
    let news: Vec<In> = (0..nn).map(|i| input("n", i as u128 + 11)).collect();
    distinct(&olds); distinct(&news);
    let rows = compare_files(exts(&olds), exts(&news), &params(CompareMethod::Base, Dimension::Time), &nofilter()).unwrap();
    covers(&rows, &olds, &news, &|_| true);
}
#[no_mangle] pub extern "C" fn prop_c18_pairs11() { pairs(1, 1) }
#[no_mangle] pub extern "C" fn prop_c18_pairs12() { if vs::choose("side", 2) == 0 { pairs(1, 2) } else { pairs(2, 1) } }
#[no_mangle] pub extern "C" fn prop_c18_pairs22() { pairs(2, 2) }
#[no_mangle] pub extern "C" fn prop_c18_order() {
    // three calls on each side, in every order
    let base = |d: u128| vec![("p", "a", d), ("p", "b", d + 1), ("q", "a", d + 2)];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let pick = |t: &str, d| { let b = base(d); order[vs::choose(t, 6)].iter().map(|i| In { file: b[*i].0.into(), name: b[*i].1.into(), v: b[*i].2 }).collect::<Vec<_>>() };
    let d = vs::u128s("d", 0, 1 << 100);
    let (olds, news) = (pick("o", d), pick("n", d));
    let rows = compare_files(exts(&olds), exts(&news), &params(CompareMethod::Base, Dimension::Proof), &nofilter()).unwrap();
    covers(&rows, &olds, &news, &|_| true);
    let same: Vec<(&str, &str)> = rows.iter().map(|r| (r.file.as_str(), r.name.as_str())).collect();
    vs::check(same == [("p", "a"), ("p", "b"), ("q", "a")], "the order of the input matters");
}
/// Names and filters with known matches.
const NAMES: [&str; 4] = ["transfer", "transfer_all", "set_code", ""];
const FILTERS: [(Option<&str>, [bool; 4]); 7] = [
    (None, [true, true, true, true]), (Some(""), [true, true, true, true]), (Some("transfer"), [true, true, false, false]),
    (Some("^transfer$"), [true, false, false, false]), (Some("all|code"), [false, true, true, false]), (Some("^(?!transfer)"), [false, false, true, true]), (Some("T.*"), [false, false, false, false]),
];
#[no_mangle] pub extern "C" fn prop_c18_filter() {
    let (fp, fe) = (vs::choose("pallet", 7), vs::choose("extrinsic", 7));
    let d = vs::u128s("d", 0, 1 << 100);
    let mk = |l: &[(usize, usize)], d: u128| l.iter().enumerate().map(|(k, (i, j))| In { file: NAMES[*i].into(), name: NAMES[*j].into(), v: d + k as u128 }).collect::<Vec<_>>();
    let olds = mk(&[(0, 0), (0, 1), (1, 2), (2, 3)], d);
    let news = mk(&[(0, 1), (3, 0), (2, 2), (1, 1)], d + 10);
    let filter = FilterParams { pallet: FILTERS[fp].0.map(|s| s.to_string()), extrinsic: FILTERS[fe].0.map(|s| s.to_string()), ..nofilter() };
    let rows = compare_files(exts(&olds), exts(&news), &params(CompareMethod::Base, Dimension::Time), &filter).unwrap();
    let at = |s: &str| NAMES.iter().position(|n| *n == s).unwrap();
    covers(&rows, &olds, &news, &|x| FILTERS[fp].1[at(&x.file)] && FILTERS[fe].1[at(&x.name)]);
    let bad = FilterParams { extrinsic: Some("(".into()), ..nofilter() };
    vs::check(compare_files(exts(&olds), exts(&news), &params(CompareMethod::Base, Dimension::Time), &bad).is_err(), "an invalid filter is accepted");
}
/// A call that cannot be compared: no range for an exact method, or a value beyond 128 bits.
#[no_mangle] pub extern "C" fn prop_c18_errors() {
    let m = if vs::choose("m", 2) == 0 { CompareMethod::ExactWorst } else { CompareMethod::ExactAsymptotic };
    let (k, why) = (vs::choose("which", 3), vs::choose("why", 2));
    let v: Vec<u128> = (0..6).map(|_| vs::u128s("v", 0, 1 << 40)).collect();
    let r = || ranges(&[("n", Some(ComponentRange { min: 1, max: 3 }))]);
    let b = Box::new;
    let good = |i: usize| CT::Add(b(CT::Scalar(v[i])), b(CT::Mul(b(CT::Scalar(v[i + 1])), b(cvar("n")))));
    let side = vs::choose("side", 2);
    let mk = |j: usize, i: usize, d: usize| {
        let n = ["a", "b", "c"][i];
        if i == k && j == side {
            if why == 0 { chroma(n, "p", good(i + d), None) } else { chroma(n, "p", CT::Mul(b(CT::Scalar(u128::MAX - v[0])), b(CT::Add(b(CT::Scalar(2)), b(cvar("n"))))), r()) }
        } else if i == k && why == 0 { chroma(n, "p", good(i + d), None) } else { chroma(n, "p", good(i + d), r()) }
    };
    let (olds, news): (Vec<_>, Vec<_>) = ((0..3).map(|i| mk(0, i, 0)).collect(), (0..3).map(|i| mk(1, i, 2)).collect());
    let rows = compare_files(olds.clone(), news.clone(), &params(m, Dimension::Time), &nofilter()).unwrap();
    vs::check(rows.len() == 3, "a row is missing");
    for i in 0..3 {
        let alone = compare_files(vec![olds[i].clone()], vec![news[i].clone()], &params(m, Dimension::Time), &nofilter()).unwrap();
        vs::check(rows[i].name == alone[0].name && values(&rows[i]) == values(&alone[0]), "an error affects another row");
        vs::check(values(&rows[i]).is_none() == (i == k), "the wrong call is an error");
    }
}

// ---- C19, C20
const KINDS: [RelativeChange; 4] = [RelativeChange::Unchanged, RelativeChange::Added, RelativeChange::Removed, RelativeChange::Changed];
fn change(kind: RelativeChange, percent: f64, id: u128) -> TermChange {
    TermChange { old: None, old_v: Some(id), new: None, new_v: None, scope: SimpleScope::empty(), percent, change: kind, method: CompareMethod::Base }
}
/// The texts of real rows.
const WARNING: &str = "Call has 1001 READs";
const FAILURE: &str = "extrinsic c0 has no range for component n";
/// A row; the identity is the name. Kinds: error, or one of four changes, with or without a warning.
fn row(i: usize, kind: usize, warn: bool, p: f64) -> ExtrinsicDiff {
    let change = match kind { 4 => TermDiff::Failed(FAILURE.into()), k => { let c = change(KINDS[k], p, i as u128); if warn { TermDiff::Warning(c, WARNING.into()) } else { TermDiff::Changed(c) } } };
    ExtrinsicDiff { name: format!("c{}", i), file: "f".into(), change }
}
fn float(tag: &str) -> f64 { f64::from_bits(vs::u64s(tag, 0, u64::MAX)) }
fn id(r: &ExtrinsicDiff) -> usize { r.name[1..].parse().unwrap() }
fn unmodified(r: &ExtrinsicDiff, kind: usize, warn: bool, p: f64) -> bool {
    r.file == "f" && match &r.change {
        TermDiff::Failed(e) => kind == 4 && e == FAILURE,
        TermDiff::Warning(c, w) => warn && w == WARNING && kind < 4 && same_change(c, r, kind, p),
        TermDiff::Changed(c) => !warn && kind < 4 && same_change(c, r, kind, p),
    }
}
fn same_change(c: &TermChange, r: &ExtrinsicDiff, kind: usize, p: f64) -> bool { c.change == KINDS[kind] && c.percent.to_bits() == p.to_bits() && c.old_v == Some(id(r) as u128) && c.new_v.is_none() && c.old.is_none() }
/// A single row against every threshold and selection of kinds.
#[no_mangle] pub extern "C" fn prop_c19_one() {
    let (kind, warn) = (vs::choose("kind", 5), vs::choose("warn", 2) == 1);
    let (p, thr) = (float("p"), float("thr"));
    vs::assume(!thr.is_nan());
    let mask = vs::choose("select", 17);
    let sel: Option<Vec<RelativeChange>> = if mask == 16 { None } else { Some((0..4).filter(|k| mask >> k & 1 == 1).map(|k| KINDS[k]).collect()) };
    let f = FilterParams { threshold: thr, change: sel, extrinsic: None, pallet: None };
    let out = filter_changes(vec![row(0, kind, warn, p)], &f);
    let size = if p < 0.0 { -p } else { p };
    let keep = kind == 4 || ((mask == 16 || mask >> kind & 1 == 1) && match kind { 0 => thr < 1e-6, 3 => size.is_nan() || size >= thr, _ => true });
    vs::check(out.len() == keep as usize, "a relevant row is dropped or an irrelevant one is kept");
    if keep { vs::check(unmodified(&out[0], kind, warn, p), "a kept row is modified"); vs::cover("kept") } else { vs::cover("dropped") }
}
/// Rows of a list are filtered one by one and stay in order.
fn c19_list(n: usize) {
    let thr = float("thr");
    vs::assume(!thr.is_nan());
    let sel = match vs::choose("select", 3) { 0 => None, 1 => Some(vec![RelativeChange::Changed]), _ => Some(vec![RelativeChange::Added, RelativeChange::Unchanged]) };
    let f = FilterParams { threshold: thr, change: sel, extrinsic: None, pallet: None };
    let rows: Vec<(usize, f64)> = (0..n).map(|_| (vs::choose("kind", 5), float("p"))).collect();
    let mk = |i: usize| row(i, rows[i].0, i == 1, rows[i].1);
    let out = filter_changes((0..n).map(mk).collect(), &f);
    let mut want = vec![];
    for i in 0..n { if filter_changes(vec![mk(i)], &f).len() == 1 { want.push(i) } }
    vs::check(out.len() == want.len(), "a row is kept or dropped because of another row");
    for (r, i) in out.iter().zip(&want) { vs::check(id(r) == *i && unmodified(r, rows[*i].0, *i == 1, rows[*i].1), "kept rows change order or content"); }
}
#[no_mangle] pub extern "C" fn prop_c19_list2() { c19_list(2) }
#[no_mangle] pub extern "C" fn prop_c19_list3() { c19_list(3) }
/// A higher threshold never brings a row back.
#[no_mangle] pub extern "C" fn prop_c19_raise() {
    let (kind, p, a, b) = (vs::choose("kind", 5), float("p"), float("a"), float("b"));
    vs::assume(a <= b);
    let f = |t| filter_changes(vec![row(0, kind, false, p)], &FilterParams { threshold: t, change: None, extrinsic: None, pallet: None }).len();
    vs::check(f(b) <= f(a), "a higher threshold brings a row back");
}

/// errors, then unchanged, added, removed, changed
fn rank(kind: usize) -> usize { if kind == 4 { 0 } else { kind + 1 } }
fn key(p: f64) -> i128 { (p * 1000.0) as i128 }
fn c20(n: usize, kinds: &[usize], warns: bool) {
    let rows: Vec<(usize, bool, f64)> = (0..n).map(|_| (kinds[vs::choose("kind", kinds.len())], warns && vs::choose("warn", 2) == 1, float("p"))).collect();
    let mut d: TotalDiff = (0..n).map(|i| row(i, rows[i].0, rows[i].1, rows[i].2)).collect();
    sort_changes(&mut d);
    vs::check(d.len() == n, "a row is lost");
    let ids: Vec<usize> = d.iter().map(|r| vs::concrete(id(r) as u64) as usize).collect();
    for i in 0..n { vs::check(ids.contains(&i), "a row is lost"); }
    for r in &d { let (k, w, p) = rows[id(r)]; vs::check(unmodified(r, k, w, p), "sorting modifies a row"); }
    for w in ids.windows(2) {
        let ((ka, _, pa), (kb, _, pb)) = (rows[w[0]], rows[w[1]]);
        vs::check(rank(ka) <= rank(kb), "the kinds of change are out of order");
        if ka == kb {
            if ka == 3 { vs::check(key(pa) <= key(pb), "changed rows are not ascending"); }
            if ka == 4 || ka == 3 && key(pa) == key(pb) { vs::check(w[0] < w[1], "a tie does not keep its order"); }
        }
    }
}
#[no_mangle] pub extern "C" fn prop_c20_two() { c20(2, &[0, 1, 2, 3, 4], true) }
#[no_mangle] pub extern "C" fn prop_c20_three() { c20(3, &[3, 4, 0], false) }
#[no_mangle] pub extern "C" fn prop_c20_kinds() {
    // all kinds at once, percentages of the reports: four rows
    let rows: Vec<usize> = (0..4).map(|_| vs::choose("kind", 5)).collect();
    let p = |k: usize| match k { 0 => 0.0, 1 => f64::INFINITY, 2 => -100.0, _ => 5.0 };
    let mut d: TotalDiff = (0..4).map(|i| row(i, rows[i], i == 2, p(rows[i]))).collect();
    sort_changes(&mut d);
    let mut want: Vec<usize> = (0..4).collect();
    for _ in 0..4 { for i in 0..3 { if rank(rows[want[i]]) > rank(rows[want[i + 1]]) { want.swap(i, i + 1) } } }
    for (r, i) in d.iter().zip(&want) { vs::check(id(r) == *i, "rows are out of order"); }
}

// ---- C21
fn pair(w: u32) -> (u128, u128) { (vs::u128s("old", 0, (1 << w) - 1), vs::u128s("new", 0, (1 << w) - 1)) }
fn sign(w: u32) {
    let (o, n) = pair(w);
    let p = percent(o, n);
    vs::assume(o > 0);
    if n > o { vs::check(p > 0.0, "an increase is not positive") } else if n < o { vs::check(p < 0.0, "a decrease is not negative") } else { vs::check(p == 0.0, "equal values differ") }
}
#[no_mangle] pub extern "C" fn prop_c21_sign() { sign(46) }

/// Special values, over the whole range.
#[no_mangle] pub extern "C" fn prop_c21_edges() {
    let v = vs::u128s("v", 1, u128::MAX);
    vs::check(percent(v, v) == 0.0, "equal values differ");
    vs::check(percent(v, 0) == -100.0, "a drop to zero is not -100%");
    vs::check(percent(0, v) == f64::INFINITY, "a rise from zero is not infinite");
    vs::check(!percent(0, 0).is_nan(), "two zeros have an undefined change");
}
#[no_mangle] pub extern "C" fn prop_c21_range() {
    let (o, n) = (vs::u128a("old"), vs::u128a("new"));
    let p = percent(o, n);
    vs::check(!p.is_nan(), "undefined relative change");
    vs::check(p >= -100.0, "a relative change below -100%");
}
#[no_mangle] pub extern "C" fn prop_c21_monotone() {
    // neither equals the old value (for these see the sign)
    let (o, a, b) = (vs::u128s("old", 1, u128::MAX), vs::u128a("a"), vs::u128a("b"));
    vs::assume(a <= b && a != o && b != o);
    vs::check(percent(o, a) <= percent(o, b), "a larger new value has a smaller relative change");
}
/// A change of exactly p percent reaches a threshold of p.
#[no_mangle] pub extern "C" fn prop_c21_whole() {
    let k = vs::u128s("k", 1, 1 << 33);
    let p = [1u128, 2, 3, 5, 7, 10, 25, 50, 99, 100, 150, 1000][vs::choose("p", 12)];
    let thr = p as f64;
    let f = |o: u128, n: u128| filter_changes(vec![row(0, 3, false, percent(o, n))], &FilterParams { threshold: thr, change: None, extrinsic: None, pallet: None }).len();
    vs::check(f(100 * k, (100 + p) * k) == 1, "an increase by a whole percentage misses the threshold");
    if p <= 100 { vs::check(f(100 * k, (100 - p) * k) == 1, "a decrease by a whole percentage misses the threshold"); }
    vs::check(f(100 * k, (100 + p) * k - 1) == 0, "a smaller increase reaches the threshold");
}

// ---- C22
/// A displayed quantity: number and unit.
enum Shown { Int(u128), Float(f64) }
fn shown(s: &str) -> (Shown, &str) {
    let b = s.as_bytes();
    if b[0] == b'~' {
        let e = 1 + s[1..].find('~').unwrap();
        let (t, rest) = (&s[..e + 1], &s[e + 1..]);
        if t.as_bytes()[6] == b'f' {
            vs::check(&t[7..] == "p2~", "not two decimals");
            let id: u64 = t[1..6].parse().unwrap();
            return (Shown::Float(f64::from_bits(vs::token_value(id).0 as u64)), rest);
        }
        return (Shown::Int(number(t).unwrap()), rest);
    }
    let e = b.iter().position(|c| !c.is_ascii_digit() && *c != b'.').unwrap_or(s.len());
    let (t, rest) = (&s[..e], &s[e..]);
    if let Some(dot) = t.find('.') { vs::check(t.len() - dot == 3, "not two decimals"); (Shown::Float(t.parse().unwrap()), rest) } else { (Shown::Int(t.parse().unwrap()), rest) }
}
const TIME: [(&str, u128); 5] = [("ps", 1), ("ns", 1_000), ("us", 1_000_000), ("ms", 1_000_000_000), ("s", 1_000_000_000_000)];
const PROOF: [(&str, u128); 4] = [("B", 1), ("KiB", 1 << 10), ("MiB", 1 << 20), ("GiB", 1 << 30)];
const CONST: [(&str, u128); 5] = [("", 1), ("K", 1_000), ("M", 1_000_000), ("G", 1_000_000_000), ("T", 1_000_000_000_000)];
fn quantity(text: &str, v: u128, units: &[(&str, u128)]) {
    let (x, u) = shown(text);
    let k = units.iter().position(|t| t.0 == u);
    vs::check(k.is_some(), "unknown unit");
    let k = k.unwrap();
    vs::check(k == 0 || v >= units[k].1, "the unit exceeds the value");
    vs::check(k + 1 == units.len() || v < units[k + 1].1, "a larger unit would fit");
    match x {
        Shown::Int(i) => vs::check(k == 0 && i == v, "a small value is not shown exactly"),
        Shown::Float(f) => {
            vs::check(k > 0, "a small value is not an integer");
            let want = v as f64 / units[k].1 as f64;
            if !vs::symbolic() { vs::check((f - want).abs() <= 0.00501 + want * 1e-15, "the displayed number is not the value in this unit"); return }
            if f.to_bits() != want.to_bits() { let d = if f > want { f - want } else { want - f }; vs::check(d <= want * 1e-15, "the displayed number is not the value in this unit"); }
        }
    }
}
#[no_mangle] pub extern "C" fn prop_c22_time() { let v = vs::u128a("v"); quantity(&Dimension::fmt_time(v), v, &TIME); quantity(&Dimension::Time.fmt_value(v), v, &TIME); }
#[no_mangle] pub extern "C" fn prop_c22_proof() { let v = vs::u128a("v"); quantity(&Dimension::fmt_proof(v), v, &PROOF); quantity(&Dimension::Proof.fmt_value(v), v, &PROOF); }
#[no_mangle] pub extern "C" fn prop_c22_scalar() { let v = vs::u128a("v"); quantity(&Dimension::fmt_scalar(v), v, &CONST); }
