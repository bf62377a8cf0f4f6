//! C12 - C17: comparing two versions of a call.
use crate::util::*;
use std::collections::HashMap;
use subweight_core::parse::pallet::{ChromaticExtrinsic, ComponentRange, SimpleExtrinsic};

pub type Ranges = Option<HashMap<String, ComponentRange>>;
pub fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
    CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true }
}
pub fn nofilter() -> FilterParams { FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None } }
pub const METHODS: [CompareMethod; 5] = [CompareMethod::Base, CompareMethod::GuessWorst, CompareMethod::ExactWorst, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic];
pub fn method() -> CompareMethod { METHODS[vs::choose("method", 5)] }
pub fn unit() -> Dimension { if vs::choose("unit", 2) == 0 { Dimension::Time } else { Dimension::Proof } }
pub fn simple(name: &str, pallet: &str, term: T, comp_ranges: Ranges) -> SimpleExtrinsic { SimpleExtrinsic { name: name.into(), pallet: pallet.into(), term, comp_ranges } }
pub fn chroma(name: &str, pallet: &str, term: CT, comp_ranges: Ranges) -> ChromaticExtrinsic { ChromaticExtrinsic { name: name.into(), pallet: pallet.into(), term, comp_ranges } }
pub fn range(tag: &str) -> ComponentRange {
    let min = vs::u32s(&format!("{}min", tag), 0, u32::MAX);
    if vs::choose(&format!("{}point", tag), 2) == 1 { return ComponentRange { min, max: min } }
    let max = vs::u32s(&format!("{}max", tag), 0, u32::MAX);
    vs::assume(min < max);
    ComponentRange { min, max }
}
pub fn ranges(rs: &[(&str, Option<ComponentRange>)]) -> Ranges {
    let mut m = HashMap::new();
    for (n, r) in rs { if let Some(r) = r { m.insert(n.to_string(), *r); } }
    if m.is_empty() { None } else { Some(m) }
}
fn maybe(tag: &str) -> Option<ComponentRange> { if vs::choose(tag, 2) == 1 { Some(range(tag)) } else { None } }
/// Documented lower and upper value of a component; None if the method must refuse.
fn bounds(m: CompareMethod, a: Option<ComponentRange>, b: Option<ComponentRange>) -> Option<(u32, u32)> {
    let exact = matches!(m, CompareMethod::ExactWorst | CompareMethod::ExactAsymptotic);
    let (lo, hi) = match (a, b) {
        (None, None) => { if exact { return None } (0, 100) }
        (Some(r), None) | (None, Some(r)) => (r.min, r.max),
        (Some(a), Some(b)) => {
            if exact && !(a.min == b.min && a.max == b.max) { return None }
            (if a.min < b.min { a.min } else { b.min }, if a.max > b.max { a.max } else { b.max })
        }
    };
    Some(match m {
        CompareMethod::Base => (lo, lo),
        CompareMethod::ExactAsymptotic | CompareMethod::Asymptotic => (hi, hi),
        _ => (lo, hi),
    })
}
/// Weight w + k * n.
fn lin(tag: &str, w: u32) -> T {
    add(sca(vs::u128s(&format!("{}w", tag), 0, (1 << w) - 1)), mul(val(vs::u128s(&format!("{}k", tag), 0, (1 << w) - 1)), var("n")))
}
fn bound(s: &SimpleScope, n: &str) -> Option<u128> { match s.get(n) { Some(Term::Scalar(v)) | Some(Term::Value(v)) => Some(v), _ => None } }

// ---- C13
/// One component that occurs in the old, the new or both versions; all combinations of annotations.
#[no_mangle] pub extern "C" fn prop_c13_one() {
    let m = method();
    let (oa, nb) = (vs::choose("old", 3), vs::choose("new", 3)); // absent, without n, with n
    vs::assume(oa + nb > 0);
    let (ra, rb) = (maybe("ra"), maybe("rb"));
    let mk = |k: usize, tag: &str, r: Option<ComponentRange>| match k {
        0 => None,
        1 => Some(simple("call", "p.rs", sca(vs::u128s(&format!("{}w", tag), 0, 1 << 60)), ranges(&[("n", r)]))),
        _ => Some(simple("call", "p.rs", lin(tag, 60), ranges(&[("n", r)]))),
    };
    let (o, n) = (mk(oa, "o", ra), mk(nb, "n", rb));
    let (xa, xb) = (if oa > 0 { ra } else { None }, if nb > 0 { rb } else { None });
    let needed = oa == 2 || nb == 2;
    let want = bounds(m, xa, xb);
    match compare_extrinsics(o, n, &params(m, Dimension::Time)) {
        Ok(c) => {
            if needed {
                match want {
                    None => vs::check(false, "an exact method guesses a range"),
                    Some((lo, hi)) => {
                        let v = bound(&c.scope, "n");
                        vs::check(v.is_some(), "the component has no value");
                        let v = v.unwrap();
                        vs::check(v == lo as u128 || v == hi as u128, "a component is evaluated at another value");
                        vs::cover("evaluated");
                    }
                }
            }
        }
        Err(_) => { vs::check(needed && want.is_none(), "a comparison is refused although the ranges are known"); vs::cover("refused") }
    }
}
/// Two components with own ranges.
#[no_mangle] pub extern "C" fn prop_c13_two() {
    let m = method();
    let (an, am, bn, bm) = (maybe("an"), maybe("am"), maybe("bn"), maybe("bm"));
    let t = |x: &str, k: u128| add(sca(k), add(mul(val(0), var("n")), mul(var(x), sca(0))));
    let both = vs::choose("both", 2) == 1;
    let o = simple("call", "p.rs", t("m", 7), ranges(&[("n", an), ("m", am)]));
    let n = simple("call", "p.rs", if both { t("m", 8) } else { mul(val(0), var("n")) }, ranges(&[("n", bn), ("m", bm)]));
    let (wn, wm) = (bounds(m, an, bn), bounds(m, am, bm));
    match compare_extrinsics(Some(o), Some(n), &params(m, Dimension::Time)) {
        Ok(c) => {
            vs::check(wn.is_some() && wm.is_some(), "an exact method guesses a range");
            for (w, x) in [(wn, "n"), (wm, "m")] {
                let ((lo, hi), v) = (w.unwrap(), bound(&c.scope, x).unwrap());
                vs::check(v == lo as u128 || v == hi as u128, "a component is evaluated at another value");
            }
            vs::cover("evaluated");
        }
        Err(_) => vs::check(wn.is_none() || wm.is_none(), "a comparison is refused although the ranges are known"),
    }
}
fn many(n: usize) -> T {
    let mut t = sca(vs::u128s("base", 0, 1 << 60));
    for i in 0..n { t = add(t, mul(val(vs::u128s("k", 0, 1 << 30)), var(&format!("c{}", i)))); }
    t
}
#[no_mangle] pub extern "C" fn prop_c13_limit() {
    let m = method();
    let n = 17 + vs::choose("more", 2);
    let rs: HashMap<String, ComponentRange> = (0..n).map(|i| (format!("c{}", i), ComponentRange { min: 1, max: 2 })).collect();
    let a = simple("call", "p.rs", many(n), Some(rs));
    // the limit also counts components that are spread over both versions
    let r = match vs::choose("split", 2) {
        0 => compare_extrinsics(Some(a), None, &params(m, Dimension::Time)),
        _ => {
            let b = simple("call", "p.rs", var("d0"), ranges(&[("d0", Some(ComponentRange { min: 0, max: 1 }))]));
            let rs: HashMap<String, ComponentRange> = (0..16).map(|i| (format!("c{}", i), ComponentRange { min: 1, max: 2 })).collect();
            compare_extrinsics(Some(simple("call", "p.rs", many(16), Some(rs))), Some(b), &params(m, Dimension::Time))
        }
    };
    vs::check(r.is_err(), "more than 16 components are compared");
}
#[no_mangle] pub extern "C" fn prop_c13_at_limit() {
    let rs: HashMap<String, ComponentRange> = (0..16).map(|i| (format!("c{}", i), ComponentRange { min: 2, max: 2 })).collect();
    let r = compare_extrinsics(Some(simple("call", "p.rs", many(16), Some(rs))), None, &params(CompareMethod::ExactWorst, Dimension::Time));
    vs::check(r.is_ok(), "16 components are refused");
}

// ---- C14
fn key(p: f64) -> i128 { (p * 1000.0) as i128 }
fn corner(c: &TermChange, o: &T, n: &T, at: &[(&str, u128)]) {
    let mut s = SimpleScope::empty().with_storage_weights(sca(25_000_000), sca(100_000_000));
    for (x, v) in at { s.put_var(x, sca(*v)); }
    let (a, b) = (o.eval(&s).unwrap(), n.eval(&s).unwrap());
    vs::check(key(percent(a, b)) <= key(c.percent), "a combination of component bounds has a larger increase than the reported one");
}
fn worst(o: T, n: T, comps: &[&str]) {
    let m = if vs::choose("m", 2) == 0 { CompareMethod::ExactWorst } else { CompareMethod::GuessWorst };
    let rs: Vec<(&str, ComponentRange)> = comps.iter().map(|c| (*c, range(c))).collect();
    let r: Ranges = ranges(&rs.iter().map(|(n, r)| (*n, Some(*r))).collect::<Vec<_>>());
    let c = match compare_extrinsics(Some(simple("c", "p", o.clone(), r.clone())), Some(simple("c", "p", n.clone(), r)), &params(m, Dimension::Time)) { Ok(c) => c, Err(_) => { vs::check(false, "a comparison is refused although all is known"); return } };
    for i in 0..(1usize << rs.len()) {
        let at: Vec<(&str, u128)> = rs.iter().enumerate().map(|(k, (x, r))| (*x, if i >> k & 1 == 1 { r.max } else { r.min } as u128)).collect();
        corner(&c, &o, &n, &at);
    }
}
#[no_mangle] pub extern "C" fn prop_c14_one() { worst(lin("o", 64), lin("n", 64), &["n"]) }
#[no_mangle] pub extern "C" fn prop_c14_two() {
    let t = |tag: &str| add(lin(tag, 64), mul(var("m"), sca(vs::u128s(&format!("{}m", tag), 0, u64::MAX as u128))));
    let (o, n) = (t("o"), t("n"));
    worst(o, n, &["n", "m"])
}
#[no_mangle] pub extern "C" fn prop_c14_split() {
    // each version has its own component, and the new one multiplies both
    let o = lin("o", 64);
    let n = add(sca(vs::u128s("nw", 0, 1 << 60)), mul(var("m"), mul(var("n"), sca(vs::u128s("nk", 0, 1 << 20)))));
    worst(o, n, &["n", "m"])
}

// ---- C15
/// Equation in the chosen dimension: database operations are free in proof size.
fn indim(t: &T, d: Dimension) -> T {
    match (t, d) {
        (Term::Var(n), Dimension::Proof) if n.0 == "READ" || n.0 == "WRITE" => sca(0),
        (Term::Add(a, b), _) => add(indim(a, d), indim(b, d)),
        (Term::Mul(a, b), _) => mul(indim(a, d), indim(b, d)),
        _ => t.clone(),
    }
}
fn row_ok(c: &TermChange, o: Option<&T>, n: Option<&T>, m: CompareMethod, d: Dimension) {
    vs::check(c.method == m, "the row names another method");
    for (given, term, v) in [(o, &c.old, c.old_v), (n, &c.new, c.new_v)] {
        match (given, term, v) {
            (None, None, None) => {}
            (Some(g), Some(t), Some(v)) => {
                vs::check(same(&indim(g, d), t), "the row shows another equation");
                vs::check(t.eval(&c.scope) == Ok(v), "the value is not that of the equation under the shown assignment");
            }
            _ => vs::check(false, "equation, value and version do not agree in existence"),
        }
    }
    let (a, b) = (c.old_v.unwrap_or(0), c.new_v.unwrap_or(0));
    vs::check(percent(a, b).to_bits() == c.percent.to_bits(), "the percentage is not that of the shown values");
}
fn body(tag: &str, few: bool) -> T {
    let w = |n: &str| vs::u128s(&format!("{}{}", tag, n), 0, 1 << 40);
    match vs::choose(tag, if few { 2 } else { 4 }) {
        0 => sca(w("w")),
        1 => add(val(w("w")), mul(val(w("k")), var("n"))),
        2 => add(add(val(w("w")), mul(val(w("k")), var("n"))), add(mul(sca(w("r")), var("READ")), mul(mul(var("m"), sca(w("x"))), var("WRITE")))),
        _ => mul(add(var("m"), sca(w("w"))), var("n")),
    }
}
/// `few`: for the methods that try every corner, a smaller set of equations.
fn sides(m: CompareMethod) -> (Option<SimpleExtrinsic>, Option<SimpleExtrinsic>) {
    let k = vs::choose("sides", 3);
    let few = matches!(m, CompareMethod::GuessWorst | CompareMethod::ExactWorst);
    let r = if few { let min = vs::u32s("min", 0, 1 << 30); ComponentRange { min, max: min + 1 + vs::u32s("len", 0, 1 << 30) } } else { range("r") };
    let shared = ranges(&[("n", Some(r)), ("m", Some(ComponentRange { min: 1, max: 9 }))]);
    let a = if k != 1 { Some(simple("call", "p.rs", body("a", few), shared.clone())) } else { None };
    let b = if k != 2 { Some(simple("call", "p.rs", body("b", few), shared)) } else { None };
    (a, b)
}
#[no_mangle] pub extern "C" fn prop_c15_row() {
    let (m, d) = (method(), unit());
    let (a, b) = sides(m);
    match compare_extrinsics(a.clone(), b.clone(), &params(m, d)) {
        Ok(c) => row_ok(&c, a.as_ref().map(|e| &e.term), b.as_ref().map(|e| &e.term), m, d),
        Err(_) => vs::check(false, "the comparison is refused although all is known"),
    }
}
fn cbody(tag: &str) -> CT {
    let w = |n: &str| CT::Value((vs::u128s(&format!("{}t{}", tag, n), 0, 1 << 60), vs::u128s(&format!("{}p{}", tag, n), 0, 1 << 60)).into());
    let b = Box::new;
    match vs::choose(tag, 3) {
        0 => w("0"),
        1 => CT::Add(b(w("0")), b(CT::Mul(b(w("1")), b(cvar("n"))))),
        _ => CT::Add(b(w("0")), b(CT::Mul(b(CT::Scalar(vs::u128s(&format!("{}r", tag), 0, 999))), b(cvar("READ"))))),
    }
}
/// Rows of a whole comparison belong to the calls they name.
#[no_mangle] pub extern "C" fn prop_c15_files() {
    let (m, d) = (if vs::choose("m", 2) == 0 { CompareMethod::Base } else { CompareMethod::Asymptotic }, unit());
    let r = || ranges(&[("n", Some(ComponentRange { min: 3, max: 50 }))]);
    let olds = vec![chroma("f", "p.rs", cbody("of"), r()), chroma("g", "p.rs", cbody("og"), r())];
    let news = vec![chroma("g", "p.rs", cbody("ng"), r()), chroma("f", "q.rs", cbody("nf"), r())];
    let diff = compare_files(olds.clone(), news.clone(), &params(m, d), &nofilter()).unwrap();
    for row in &diff {
        let f = |l: &Vec<ChromaticExtrinsic>| l.iter().find(|e| e.name == row.name && e.pallet == row.file).map(|e| e.term.simplify(d).unwrap());
        let (o, n) = (f(&olds), f(&news));
        match &row.change {
            TermDiff::Changed(c) => { row_ok(c, o.as_ref(), n.as_ref(), m, d); vs::cover("row") }
            _ => vs::check(false, "a comparable row is an error or a warning"),
        }
    }
    vs::check(diff.len() == 3, "three calls");
}

// ---- C16
#[no_mangle] pub extern "C" fn prop_c16_kind() {
    let (m, d) = (method(), unit());
    let (a, b) = sides(m);
    let (ta, tb) = (a.as_ref().map(|e| indim(&e.term, d)), b.as_ref().map(|e| indim(&e.term, d)));
    let c = match compare_extrinsics(a.clone(), b.clone(), &params(m, d)) { Ok(c) => c, Err(_) => { vs::check(false, "the comparison is refused although all is known"); return } };
    let want = match (&ta, &tb) {
        (None, _) => RelativeChange::Added,
        (_, None) => RelativeChange::Removed,
        (Some(x), Some(y)) => if same(x, y) { RelativeChange::Unchanged } else { RelativeChange::Changed },
    };
    vs::check(c.change == want, "wrong kind of change");
    let r = match compare_extrinsics(b, a, &params(m, d)) { Ok(c) => c, Err(_) => { vs::check(false, "the swapped comparison is refused"); return } };
    let swapped = match want { RelativeChange::Added => RelativeChange::Removed, RelativeChange::Removed => RelativeChange::Added, k => k };
    vs::check(r.change == swapped, "swapping the versions gives the wrong kind of change");
}
/// A set of calls compared with itself.
#[no_mangle] pub extern "C" fn prop_c16_self() {
    let (m, d) = (method(), unit());
    let big = |n: &str| CT::Value((vs::u128a(&format!("{}t", n)), vs::u128a(&format!("{}p", n))).into());
    let b = Box::new;
    let r = if vs::choose("range", 2) == 1 { ranges(&[("n", Some(range("r")))]) } else { None };
    let t = match vs::choose("t", 3) { 0 => big("a"), 1 => CT::Mul(b(big("a")), b(cvar("n"))), _ => CT::Add(b(big("a")), b(CT::Mul(b(CT::Scalar(vs::u128a("r"))), b(cvar("READ"))))) };
    let set = vec![chroma("f", "p.rs", t, r), chroma("g", "p.rs", big("g"), None)];
    let diff = compare_files(set.clone(), set, &params(m, d), &nofilter()).unwrap();
    vs::check(diff.len() == 2, "one row per call");
    for row in &diff {
        match &row.change {
            TermDiff::Changed(c) | TermDiff::Warning(c, _) => { vs::check(c.change == RelativeChange::Unchanged, "a call compared with itself is not unchanged"); vs::check(c.percent == 0.0, "a call compared with itself has a relative change"); }
            TermDiff::Failed(_) => vs::check(row.name == "f", "a constant call cannot be compared with itself"),
        }
    }
}

// ---- C17
#[no_mangle] pub extern "C" fn prop_c17_db() {
    let m = method();
    let d = unit();
    let b = Box::new;
    let (t, p, kt, kp) = (vs::u128s("t", 0, 1 << 64), vs::u128s("p", 0, 1 << 64), vs::u128s("kt", 0, 1 << 64), vs::u128s("kp", 0, 1 << 64));
    let (r, w, rn) = (vs::u128s("r", 0, 1 << 40), vs::u128s("w", 0, 1 << 40), vs::u128s("rn", 0, 1 << 40));
    let sc = |v| CT::Scalar(v);
    let mut term = CT::Add(b(CT::Value((t, p).into())), b(CT::Mul(b(CT::Value((kt, kp).into())), b(cvar("n")))));
    term = CT::Add(b(term), b(CT::Mul(b(sc(r)), b(cvar("READ")))));
    term = CT::Add(b(CT::Mul(b(cvar("WRITE")), b(sc(w)))), b(term));
    term = CT::Add(b(term), b(CT::Mul(b(CT::Mul(b(CT::Value((rn, 0).into())), b(cvar("n")))), b(cvar("READ")))));
    let n = vs::u32s("n", 0, u32::MAX);
    let rs = ranges(&[("n", Some(ComponentRange { min: n, max: n }))]);
    let side = vs::choose("side", 2);
    let e = vec![chroma("f", "p.rs", term, rs)];
    let diff = if side == 0 { compare_files(e, vec![], &params(m, d), &nofilter()) } else { compare_files(vec![], e, &params(m, d), &nofilter()) }.unwrap();
    let n = n as u128;
    let want = match d {
        Dimension::Time => t + kt * n + r * 25_000_000 + w * 100_000_000 + rn * n * 25_000_000,
        Dimension::Proof => p + kp * n,
    };
    match diff[0].term() {
        Some(c) => vs::check(if side == 0 { c.old_v } else { c.new_v } == Some(want), "wrong cost of database operations or of the rest"),
        None => vs::check(false, "the call is not compared"),
    }
}

fn mentions(t: &T, v: &str) -> bool { match t { Term::Add(a, b) | Term::Mul(a, b) => mentions(a, v) || mentions(b, v), Term::Var(n) => n.0 == v, _ => false } }
/// Two versions that differ in their storage operations, and perhaps in one other constant.
#[no_mangle] pub extern "C" fn prop_c17_versions() {
    let m = method();
    let d = unit();
    let b = Box::new;
    let which = vs::choose("which", 5);
    let v = |tag: &str| (vs::u128s(tag, 0, 1 << 40), vs::u128s(tag, 0, 1 << 40));
    let (t, p, r, w, k) = (v("t"), v("p"), v("r"), v("w"), v("k"));
    // only the chosen one differs, or reads and writes together
    let at = |v: (u128, u128), i: usize, new: bool| if new && (which == i || which == 4 && (i == 2 || i == 3)) { v.1 } else { v.0 };
    let n = vs::u32s("n", 0, u32::MAX);
    let mk = |new: bool| {
        let mut term = CT::Add(b(CT::Value((at(t, 0, new), at(p, 1, new)).into())), b(CT::Mul(b(CT::Value((k.0, k.1).into())), b(cvar("n")))));
        term = CT::Add(b(term), b(CT::Mul(b(CT::Scalar(at(r, 2, new))), b(cvar("READ")))));
        term = CT::Add(b(term), b(CT::Mul(b(CT::Scalar(at(w, 3, new))), b(cvar("WRITE")))));
        vec![chroma("f", "p.rs", term, ranges(&[("n", Some(ComponentRange { min: n, max: n }))]))]
    };
    let diff = compare_files(mk(false), mk(true), &params(m, d), &nofilter()).unwrap();
    vs::check(diff.len() == 1, "not one row");
    let want = |new: bool| match d {
        Dimension::Time => at(t, 0, new) + k.0 * n as u128 + at(r, 2, new) * 25_000_000 + at(w, 3, new) * 100_000_000,
        Dimension::Proof => at(p, 1, new) + k.1 * n as u128,
    };
    let same = |i: usize| at([t, p, r, w][i], i, false) == at([t, p, r, w][i], i, true);
    let mine = match d { Dimension::Time => same(0) && same(2) && same(3), Dimension::Proof => same(1) };
    match diff[0].term() {
        Some(c) => {
            vs::check(c.old_v == Some(want(false)) && c.new_v == Some(want(true)), "wrong cost of database operations or of the rest");
            vs::check(mine || c.change == RelativeChange::Changed, "a change of this dimension is not reported");
            // a changed number of operations may still show as a change of the proof equation, by 0%
            if mine && (d == Dimension::Time || same(2) && same(3)) { vs::check(c.change == RelativeChange::Unchanged, "a dimension is influenced by constants of the other"); }
            if d == Dimension::Proof { for e in [&c.old, &c.new] { vs::check(!mentions(e.as_ref().unwrap(), "READ") && !mentions(e.as_ref().unwrap(), "WRITE"), "operations stay in the proof equation"); } }
            vs::cover(if mine { "same" } else { "changed" });
        }
        None => vs::check(false, "the call is not compared"),
    }
}

// ---- C12
fn direct(t: &T, x: &str) -> Option<u128> {
    let mx = |a: Option<u128>, b: Option<u128>| match (a, b) { (Some(a), Some(b)) => Some(if a > b { a } else { b }), (a, None) => a, (None, b) => b };
    match t {
        Term::Mul(a, b) => {
            let own = match (&**a, &**b) { (Term::Var(n), Term::Scalar(c) | Term::Value(c)) | (Term::Scalar(c) | Term::Value(c), Term::Var(n)) if n.0 == x => Some(*c), _ => None };
            mx(own, mx(direct(a, x), direct(b, x)))
        }
        Term::Add(a, b) => mx(direct(a, x), direct(b, x)),
        _ => None,
    }
}
fn rwpart(tag: &str) -> CT {
    let f = |k: u32| vs::u128s(&format!("{}{}", tag, k), 0, 1 << 40);
    let b = Box::new;
    match vs::choose(tag, 7) {
        0 => CT::Mul(b(CT::Scalar(f(0))), b(cvar("READ"))),
        1 => CT::Mul(b(cvar("WRITE")), b(CT::Scalar(f(0)))),
        2 => CT::Mul(b(CT::Mul(b(CT::Scalar(f(0))), b(cvar("n")))), b(cvar("READ"))),
        3 => CT::Mul(b(CT::Mul(b(CT::Scalar(f(0))), b(cvar("WRITE")))), b(CT::Scalar(f(1)))),
        4 => CT::Mul(b(CT::Scalar(f(0))), b(cvar("n"))),
        5 => CT::Value((f(0), f(1)).into()),
        _ => CT::Add(b(CT::Mul(b(CT::Scalar(f(0))), b(cvar("READ")))), b(CT::Mul(b(CT::Scalar(f(1))), b(cvar("READ"))))),
    }
}
fn has(msg: &str, what: &str) -> bool { msg.contains(what) }
/// The number in front of a word that starts with `what`.
fn count(msg: &str, what: &str) -> Option<u128> {
    let at = msg.find(&format!(" {}", what))?;
    crate::terms::number(msg[..at].rsplit(' ').next()?)
}
#[no_mangle] pub extern "C" fn prop_c12_flag() {
    let t = CT::Add(Box::new(rwpart("a")), Box::new(rwpart("b")));
    let other = CT::Add(Box::new(CT::Scalar(7)), Box::new(CT::Mul(Box::new(CT::Scalar(5000)), Box::new(cvar("READ")))));
    let k = vs::choose("sides", 3); // only old, only new, both (the new one decides)
    let e = |t: CT| vec![chroma("mycall", "mypallet.rs", t, ranges(&[("n", Some(ComponentRange { min: 1, max: 1 }))]))];
    let (olds, news) = match k { 0 => (e(t.clone()), vec![]), 1 => (vec![], e(t.clone())), _ => (e(other), e(t.clone())) };
    let s = t.simplify(Dimension::Time).unwrap();
    let (r, w) = (direct(&s, "READ").unwrap_or(0), direct(&s, "WRITE").unwrap_or(0));
    let p = params(CompareMethod::Base, Dimension::Time);
    let diff = compare_files(olds.clone(), news.clone(), &p, &nofilter()).unwrap();
    vs::check(diff.len() == 1, "one row");
    let f = |l: &Vec<ChromaticExtrinsic>| l.first().cloned().map(|e| e.map_term(|t| t.simplify(Dimension::Time).unwrap()));
    let plain = compare_extrinsics(f(&olds), f(&news), &p).unwrap();
    let c = match &diff[0].change {
        TermDiff::Warning(c, msg) => {
            vs::cover("warning");
            vs::check(r > 1000 || w > 1000, "a warning without a suspicious count");
            vs::check(has(msg, "mycall") && has(msg, "mypallet.rs"), "the warning does not name the call");
            match (count(msg, "READ"), count(msg, "WRITE")) {
                (Some(k), None) => vs::check(r >= w && k == r, "the warning does not name the larger count"),
                (None, Some(k)) => vs::check(w >= r && k == w, "the warning does not name the larger count"),
                _ => vs::check(false, "the warning does not name the larger count"),
            }
            c
        }
        TermDiff::Changed(c) => { vs::check(r <= 1000 && w <= 1000, "a suspicious count is not flagged"); vs::cover("clean"); c }
        TermDiff::Failed(_) => { vs::check(false, "the call is not compared"); return }
    };
    vs::check(c.old_v == plain.old_v && c.new_v == plain.new_v && c.percent.to_bits() == plain.percent.to_bits() && c.change == plain.change, "the warning changes the reported values");
}
#[no_mangle] pub extern "C" fn prop_c12_terms() {
    // the check itself on every equation of height 2
    let mut leaf = || match vs::choose("leaf", 4) { 0 => sca(vs::u128a("s")), 1 => val(vs::u128a("v")), 2 => var("READ"), _ => var("WRITE") };
    let t = if vs::choose("spine", 2) == 0 { tree(1, &mut leaf) } else { spine(2, &mut leaf) };
    let (r, w) = (direct(&t, "READ").unwrap_or(0), direct(&t, "WRITE").unwrap_or(0));
    vs::check(sanity_check_term(&t).is_err() == (r > 1000 || w > 1000), "a count is flagged exactly if it exceeds 1000");
}
