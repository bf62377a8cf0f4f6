//! C24, C25: the result page.
use crate::{html::templates, CompareArgs};
use subweight_core::{term::SimpleTerm, *};
use vs::{html::*, text::same};

fn flag(n: &str) -> bool { vs::choose(n, 2) == 1 }
pub fn request() -> CompareArgs { CompareArgs { old: "o".into(), new: "n".into(), repo: "repository".into(), path_pattern: "p".into(), extrinsic: None, pallet: None, ignore_errors: false, threshold: 3, unit: Dimension::Time, git_pull: None, method: CompareMethod::Base } }
fn var(n: &str) -> SimpleTerm { SimpleTerm::Var(n.into()) }

// ---- C25
fn page25(field: usize, kind: usize, text: &str) -> String {
    let t = text.to_string();
    let mut a = request();
    let (mut org, mut repos) = ("g".to_string(), vec!["repository".to_string(), "s".to_string()]);
    let c = TermChange { old: Some(var("x")), old_v: Some(3), new: Some(var("y")), new_v: Some(6), scope: scope::SimpleScope::empty().with_var("x", SimpleTerm::Scalar(3)), percent: 100.0, change: RelativeChange::Changed, method: CompareMethod::Base };
    let mut row = ExtrinsicDiff { name: "f".into(), file: "a.rs".into(), change: TermDiff::Changed(c.clone()) };
    match field {
        0 => a.old = t,
        1 => a.new = t,
        2 => a.path_pattern = t,
        3 => a.pallet = Some(t),
        4 => a.extrinsic = Some(t),
        5 => org = t,
        6 => { repos[1] = t.clone(); if kind == 1 { a.repo = t } }
        7 => row.file = t,
        8 => row.name = t,
        9 => row.change = TermDiff::Failed(t),
        10 => row.change = TermDiff::Warning(c, t),
        11 => return templates::Error::render(&t),
        _ => return templates::Root::render(vec!["r".into(), t]),
    }
    templates::Compare::render(&vec![row], &a, org, &repos, false)
}
/// Any character: one of five special ones, or any other.
fn any() -> u8 {
    let k = vs::choose("special", 6);
    if k < 5 { return b"<>&'\""[k] }
    let c = vs::u8s("c", 2, 0x7f);
    vs::assume((c != b'<') & (c != b'>') & (c != b'&') & (c != b'\'') & (c != b'"'));
    c
}
pub fn text(n: usize) -> String { unsafe { String::from_utf8_unchecked((0..n).map(|_| any()).collect()) } }
fn c25(n: usize) {
    vs::merge(false);
    let field = vs::choose("field", 13);
    let kind = vs::choose("kind", 2);
    vs::assume(kind == 0 || field == 6);
    let n = if n == 0 { 0 } else { 1 + vs::choose("length", n) };
    let t = text(n);
    // the page with harmless letters has the structure the template intends
    let plain = "\u{1}".repeat(n);
    let (got, want) = (page25(field, kind, &t), page25(field, kind, &plain));
    let (got, want) = (read(got.as_bytes()), read(want.as_bytes()));
    vs::check(skeleton(&got) == skeleton(&want), "the text changes the structure of the page");
    // and the text itself in its places
    let (got, want) = (content(&got), content(&want));
    vs::check(got.len() == want.len(), "the text is altered");
    let (mut k, mut fine, mut seen) = (0, true, n == 0);
    for (g, w) in got.iter().zip(&want) {
        if *w == 1 { fine &= *g == t.as_bytes()[k % n]; k += 1; seen = true } else { fine &= g == w }
    }
    vs::check(fine && seen, "the text is altered");
    vs::cover("page");
}
#[no_mangle] pub extern "C" fn prop_c25_text() { c25(3) }
#[no_mangle] pub extern "C" fn prop_c25_long() { c25(4) }

// ---- C24
/// An integer, or the token of a symbolic one.
fn number(s: &[u8]) -> Option<i128> {
    let s = std::str::from_utf8(s).ok()?;
    let (neg, b) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s) };
    if b.len() == 7 && b.starts_with('~') && b.ends_with('~') {
        let v = vs::token_value(b[1..6].parse().ok()?).0 as i128;
        return Some(if neg { v.wrapping_neg() } else { v });
    }
    s.parse::<i128>().ok().or_else(|| s.parse::<u128>().ok().map(|v| v as i128))
}
pub struct Cell { pub key: Option<i128>, pub text: String, pub style: Vec<u8>, pub links: Vec<String> }
pub struct Line { pub cells: Vec<Cell> }
fn is(n: &Node, tag: &str) -> bool { matches!(n, Node::Open(t, _) if t == tag.as_bytes()) }
fn ends(n: &Node, tag: &str) -> bool { matches!(n, Node::Close(t) if t == tag.as_bytes()) }
/// The rows of the result table, and all text before it.
pub fn table(page: &[Node]) -> (Vec<Line>, String) {
    let st = page.iter().position(|n| is(n, "table") && attr(n, "id") == Some(&b"sort_me"[..])).expect("a result table");
    let (mut rows, mut body): (Vec<Line>, bool) = (vec![], false);
    for n in &page[st..] {
        if is(n, "tbody") { body = true }
        if ends(n, "tbody") || ends(n, "table") { body = false }
        if !body { continue }
        if is(n, "tr") { rows.push(Line { cells: vec![] }) }
        let Some(row) = rows.last_mut() else { continue };
        if is(n, "td") { row.cells.push(Cell { key: attr(n, "data-order").and_then(number), text: String::new(), style: vec![], links: vec![] }) }
        let Some(cell) = row.cells.last_mut() else { continue };
        if let Node::Text(t) = n { cell.text.push_str(std::str::from_utf8(&decoded(t)).unwrap()) }
        if let Some(s) = attr(n, "style") { cell.style.extend(s) }
        if let Some(s) = attr(n, "href") { cell.links.push(String::from_utf8(decoded(s)).unwrap()) }
    }
    for r in &mut rows { for c in &mut r.cells { c.text = c.text.trim().to_string() } }
    let mut before = String::new();
    for n in &page[..st] { if let Node::Text(t) = n { before.push_str(std::str::from_utf8(&decoded(t)).unwrap()) } }
    (rows, before)
}
/// A row of a kind: failed, unchanged, added, removed, changed, changed with a warning.
pub fn row(kind: usize, k: usize, max: u128) -> ExtrinsicDiff {
    let (o, n) = (vs::u128s("old", 0, max), vs::u128s("new", 0, max));
    let pc = f64::from_bits(vs::u64s("percent", 0, u64::MAX));
    let t = |n: &str| SimpleTerm::Mul(Box::new(var(n)), Box::new(SimpleTerm::Add(Box::new(SimpleTerm::Scalar(7)), Box::new(var("m")))));
    let (old, new) = (Some((o, t("x"))), Some((n, t("y"))));
    let (old, new, change, percent) = match kind {
        1 => (old.clone(), old, RelativeChange::Unchanged, 0.0),
        2 => (None, new, RelativeChange::Added, 100.0),
        3 => (old, None, RelativeChange::Removed, -100.0),
        _ => {
            // what C21 says of percentages
            vs::assume(!pc.is_nan() && pc >= -100.0);
            vs::assume(if n > o { pc >= 0.0 } else if n < o { pc <= 0.0 } else { pc == 0.0 });
            (old, new, RelativeChange::Changed, pc)
        }
    };
    let c = TermChange { old_v: old.as_ref().map(|x| x.0), old: old.map(|x| x.1), new_v: new.as_ref().map(|x| x.0), new: new.map(|x| x.1), scope: scope::SimpleScope::empty().with_var("x", SimpleTerm::Scalar(3)).with_var("y", SimpleTerm::Scalar(4)), percent, change, method: CompareMethod::Base };
    ExtrinsicDiff { name: ["f", "g", "f"][k].into(), file: ["a.rs", "a.rs", "b.rs"][k].into(), change: match kind { 0 => TermDiff::Failed(format!("bad {}", k)), 5 => TermDiff::Warning(c, format!("hm {}", k)), _ => TermDiff::Changed(c) } }
}
fn wants(c: &Cell, want: &str, msg: &str) { vs::check(same(&c.text, want), msg) }
fn has(s: &[u8], p: &str) -> bool { s.windows(p.len()).any(|w| w == p.as_bytes()) }
fn coloured(c: &Cell, text: &str, up: Option<bool>, what: [&str; 2]) {
    wants(c, text, what[0]);
    vs::check(up != Some(true) || has(&c.style, "red") && !has(&c.style, "green"), what[1]);
    vs::check(up != Some(false) || has(&c.style, "green") && !has(&c.style, "red"), what[1]);
}
fn shown(unit: Dimension, l: &Line, d: &ExtrinsicDiff, c: &TermChange) {
    vs::check(l.cells.len() == 9, "another number of cells");
    let v = |v: Option<u128>| v.map(|v| unit.fmt_value(v)).unwrap_or("-".into());
    wants(&l.cells[2], &v(c.old_v), "another old value");
    wants(&l.cells[3], &v(c.new_v), "another new value");
    vs::check(l.cells[2].key.map(|k| k as u128) == Some(c.old_v.unwrap_or(0)), "another key of the old value");
    vs::check(l.cells[3].key.map(|k| k as u128) == Some(c.new_v.unwrap_or(0)), "another key of the new value");
    let rel = ["another relative change", "another colour of the relative change"];
    let abs = ["another absolute change", "another colour of the absolute change"];
    match c.change {
        RelativeChange::Changed => {
            let (p, o, n) = (c.percent, c.old_v.unwrap(), c.new_v.unwrap());
            if p > 0.0 { coloured(&l.cells[4], &format!("+{:.2}%", p.abs()), Some(true), rel) }
            else if p < 0.0 { coloured(&l.cells[4], &format!("-{:.2}%", p.abs()), Some(false), rel) }
            else { vs::check(!has(l.cells[4].text.as_bytes(), "+") && !has(&l.cells[4].style, "red") && !has(&l.cells[4].style, "green"), rel[1]) }
            if n > o { coloured(&l.cells[5], &format!("+{}", unit.fmt_value(n - o)), Some(true), abs) }
            else if n < o { coloured(&l.cells[5], &format!("-{}", unit.fmt_value(o - n)), Some(false), abs) }
            else {
                vs::check(number(l.cells[5].text.as_bytes()) == Some(0) && !has(&l.cells[5].style, "red") && !has(&l.cells[5].style, "green"), abs[0]);
                vs::check(l.cells[4].key == Some(0) && l.cells[5].key == Some(0), "another key of a change of zero");
                vs::cover("same value");
            }
        }
        k => {
            let t = match k { RelativeChange::Unchanged => "Unchanged", RelativeChange::Added => "Added", _ => "Removed" };
            coloured(&l.cells[4], t, None, rel);
            coloured(&l.cells[5], t, None, abs);
        }
    }
    for (i, t, m) in [(6, &c.old, "another old equation"), (7, &c.new, "another new equation")] {
        let want = t.as_ref().map(|t| t.to_string()).unwrap_or("-".into());
        vs::check(l.cells[i].text.ends_with(&want) && (t.is_some() || l.cells[i].text == "-"), m);
        // the source of the call
        let at = format!("https://github.com/org/repository/tree/{}/{}#", if i == 6 { "v1" } else { "v2" }, d.file);
        vs::check(l.cells[i].links.len() == t.is_some() as usize && l.cells[i].links.iter().all(|u| u.starts_with(&at) && u.ends_with(&d.name)), "a link to another place");
    }
    vs::check(l.cells[8].text.contains("x = 3") && l.cells[8].text.contains("y = 4"), "other variables");
    vs::cover(match c.change { RelativeChange::Unchanged => "unchanged", RelativeChange::Added => "added", RelativeChange::Removed => "removed", RelativeChange::Changed => "changed" });
}
fn show(rows: &TotalDiff, unit: Dimension) -> Vec<Line> {
    let mut a = request();
    a.unit = unit;
    (a.old, a.new) = ("v1".into(), "v2".into());
    let page = templates::Compare::render(rows, &a, "org".into(), &vec!["repository".into()], false);
    let (lines, before) = table(&read(page.as_bytes()));
    let comparable: Vec<_> = rows.iter().filter_map(|r| r.term().map(|t| (r, t))).collect();
    vs::check(lines.len() == comparable.len(), "not one line per comparable row");
    let mut r = vec![];
    for (d, c) in comparable {
        let at: Vec<usize> = (0..lines.len()).filter(|k| lines[*k].cells.len() > 1 && lines[*k].cells[0].text == d.file && lines[*k].cells[1].text.starts_with(&d.name)).collect();
        vs::check(at.len() == 1, "a row has no line of its own");
        shown(unit, &lines[at[0]], d, c);
        r.push(at[0]);
    }
    for d in rows { if let Some(e) = d.error().or(d.warning()) { vs::check(before.contains(&e.to_string()), "a message is missing"); vs::cover("message") } }
    for (n, what) in [(rows.iter().filter(|d| d.error().is_some()).count(), "errors"), (rows.iter().filter(|d| d.warning().is_some()).count(), "warnings")] {
        let said: Vec<&str> = before.split(&format!(" {} generated", what)).collect();
        vs::check(said.len() == 1 + (n > 0) as usize && (n == 0 || said[0].split_whitespace().last() == Some(&n.to_string()[..])), "another number of messages");
    }
    let mut lines: Vec<Option<Line>> = lines.into_iter().map(Some).collect();
    r.into_iter().map(|k| lines[k].take().unwrap()).collect()
}
fn unit() -> Dimension { if flag("unit") { Dimension::Time } else { Dimension::Proof } }
const MAX: u128 = i128::MAX as u128 - 1;
/// One row, all values.
#[no_mangle] pub extern "C" fn prop_c24_values() { vs::merge(false); let u = unit(); show(&vec![row(vs::choose("kind", 6), 0, MAX)], u); }
/// Three rows of all kinds.
#[no_mangle] pub extern "C" fn prop_c24_rows() { vs::merge(false); show(&(0..3).map(|k| row(vs::choose("kind", 6), k, 900)).collect(), Dimension::Proof); }
/// The keys (relative, absolute) of two rows.
fn keys(rows: TotalDiff) -> [(i128, i128); 2] {
    let page = templates::Compare::render(&rows, &request(), "o".into(), &vec!["repository".into()], false);
    let (lines, _) = table(&read(page.as_bytes()));
    let key = |k: usize| lines.iter().find(|l| l.cells[1].text.starts_with(["f", "g"][k])).map(|l| (l.cells[4].key.expect("a key"), l.cells[5].key.expect("a key"))).expect("a line");
    [key(0), key(1)]
}
fn with(k: usize, kind: usize, o: u128, n: u128, p: f64) -> ExtrinsicDiff {
    let (old_v, new_v, change, percent) = match kind { 1 => (Some(o), Some(o), RelativeChange::Unchanged, 0.0), 2 => (None, Some(n), RelativeChange::Added, 100.0), 3 => (Some(o), None, RelativeChange::Removed, -100.0), _ => (Some(o), Some(n), RelativeChange::Changed, p) };
    let c = TermChange { old: old_v.map(|_| var("x")), old_v, new: new_v.map(|_| var("y")), new_v, scope: scope::SimpleScope::empty(), percent, change, method: CompareMethod::Base };
    ExtrinsicDiff { name: ["f", "g"][k].into(), file: "a.rs".into(), change: TermDiff::Changed(c) }
}
/// The order of any two rows by the size of the change.
#[no_mangle] pub extern "C" fn prop_c24_absolute() {
    vs::merge(false);
    let kinds: Vec<usize> = (0..2).map(|_| 1 + vs::choose("kind", 4)).collect();
    let side = |n: &str, v: &str| if vs::choose(n, 2) == 1 { vs::u128s(v, 1 << 90, MAX) } else { vs::u128s(v, 0, 900) };
    let v: Vec<(u128, u128)> = (0..2).map(|_| (side("large old", "old"), side("large new", "new"))).collect();
    let [(_, a), (_, b)] = keys((0..2).map(|k| with(k, kinds[k], v[k].0, v[k].1, 1.0)).collect());
    let class = |k: usize| [1, 2, 0, 1][k - 1];
    if class(kinds[0]) != class(kinds[1]) {
        vs::check((class(kinds[0]) < class(kinds[1])) == (a < b) && a != b, "removed, changed and added rows are not in this order by absolute change");
        vs::cover("apart");
    } else if class(kinds[0]) == 1 {
        let d = |k: usize| if kinds[k] == 1 { 0 } else { v[k].1 as i128 - v[k].0 as i128 };
        vs::check((d(0) < d(1)) == (a < b), "absolute changes in another order");
        vs::check((d(0) == d(1)) == (a == b), "absolute changes in another order");
        vs::cover("near");
    }
}
/// The order of any two rows by percentage.
#[no_mangle] pub extern "C" fn prop_c24_relative() {
    vs::merge(false);
    let kinds: Vec<usize> = (0..2).map(|_| 1 + vs::choose("kind", 4)).collect();
    let v: Vec<(u128, u128, f64)> = (0..2).map(|_| {
        let p = f64::from_bits(vs::u64s("percent", 0, u64::MAX));
        vs::assume(!p.is_nan());
        vs::assume(p >= -100.0);
        if vs::choose("up", 2) == 1 { vs::assume(p >= 0.0); (3, 5, p) } else { vs::assume(p <= 0.0); (5, 3, p) }
    }).collect();
    let [(a, _), (b, _)] = keys((0..2).map(|k| with(k, kinds[k], v[k].0, v[k].1, v[k].2)).collect());
    let class = |k: usize| [1, 2, 0, 1][k - 1];
    if class(kinds[0]) != class(kinds[1]) {
        vs::check((class(kinds[0]) < class(kinds[1])) == (a < b) && a != b, "removed, changed and added rows are not in this order by relative change");
        vs::cover("apart");
    } else if class(kinds[0]) == 1 {
        let p = |k: usize| if kinds[k] == 1 { 0.0 } else { v[k].2 };
        if p(0) <= p(1) { vs::check(a <= b, "relative changes in another order"); vs::cover("near") }
    }
}
/// Changes that look different have different keys.
#[no_mangle] pub extern "C" fn prop_c24_distinct() {
    vs::merge(false);
    let q = [-100.0, -0.01, 0.0, 0.01, 99.99, 1e6][vs::choose("fixed", 6)];
    let p = f64::from_bits(vs::u64s("percent", 0, u64::MAX));
    vs::assume(!p.is_nan() && p >= -100.0 && p <= 2e6);
    let (o, n) = if vs::choose("up", 2) == 1 { (3, 5) } else { (5, 3) };
    let [(a, _), (b, _)] = keys(vec![with(0, 4, o, n, p), with(1, 4, o, n, q)]);
    if p <= q - 0.0101 { vs::check(a < b, "a smaller change does not have a smaller key"); vs::cover("smaller") }
    if p >= q + 0.0101 { vs::check(a > b, "a larger change does not have a larger key"); vs::cover("larger") }
}
