//! C30: the names of methods, dimensions and kinds of change.
use crate::{html::templates, page, CompareArgs};
use clap::{Parser, ValueEnum};
use serde::de::{value::{Error, StrDeserializer}, Deserialize, IntoDeserializer};
use std::str::FromStr;
use subweight_core::*;
use vs::html::*;

const METHODS: [(&str, CompareMethod); 5] = [("base", CompareMethod::Base), ("guess-worst", CompareMethod::GuessWorst), ("exact-worst", CompareMethod::ExactWorst), ("exact-asymptotic", CompareMethod::ExactAsymptotic), ("asymptotic", CompareMethod::Asymptotic)];
const UNITS: [(&str, Dimension); 3] = [("time", Dimension::Time), ("weight", Dimension::Time), ("proof", Dimension::Proof)];
const CHANGES: [(&str, RelativeChange); 4] = [("unchanged", RelativeChange::Unchanged), ("changed", RelativeChange::Changed), ("added", RelativeChange::Added), ("removed", RelativeChange::Removed)];

fn serde<'a, T: Deserialize<'a>>(s: &'a str) -> Option<T> { let d: StrDeserializer<Error> = s.into_deserializer(); T::deserialize(d).ok() }
/// What a text names by the documentation.
fn named<T: Copy>(s: &str, t: &[(&str, T)]) -> Option<T> { t.iter().find(|(n, _)| *n == s).map(|(_, v)| *v) }
fn all<T: FromStr + ValueEnum + Copy + PartialEq + for<'a> Deserialize<'a>>(s: &str, table: &[(&str, T)]) {
    let want = named(s, table);
    vs::check(<T as FromStr>::from_str(s).ok() == want, "text conversion");
    vs::check(serde::<T>(s) == want, "web query");
    vs::check(<T as ValueEnum>::from_str(s, false).ok() == want, "command line");
    // the command line ignores case
    vs::check(<T as ValueEnum>::from_str(s, true).ok() == named(&s.to_ascii_lowercase(), table), "command line in another case");
    vs::cover(if want.is_some() { "named" } else { "unknown" });
}
fn any(max: usize) -> String {
    let n = vs::choose("length", max + 1);
    unsafe { String::from_utf8_unchecked((0..n).map(|_| vs::u8s("c", 0, 0x7f)).collect()) }
}
fn each(s: &str) {
    match vs::choose("kind", 3) { 0 => all(s, &METHODS), 1 => all(s, &UNITS), _ => all(s, &CHANGES) }
}
/// Every text.
#[no_mangle] pub extern "C" fn prop_c30_text() { vs::merge(false); each(&any(17)) }
/// The lists for users.
#[no_mangle] pub extern "C" fn prop_c30_lists() {
    vs::merge(false);
    let (m, u) = (CompareMethod::reflect(), Dimension::reflect());
    for v in CompareMethod::value_variants() { vs::check(m.iter().filter(|x| x.0 == *v).count() == 1, "a method is not listed once") }
    for v in Dimension::value_variants() { vs::check(u.iter().filter(|x| x.0 == *v).count() == 1, "a dimension is not listed once") }
    for (v, n) in &m { vs::check(named(n, &METHODS) == Some(*v), "a method is listed by another name") }
    for (v, n) in &u { vs::check(named(n, &UNITS) == Some(*v), "a dimension is listed by another name") }
    let c = RelativeChange::variants();
    for v in RelativeChange::value_variants() { vs::check(c.iter().filter(|n| named(n, &CHANGES) == Some(*v)).count() == 1, "a kind of change is not listed once") }
    vs::check(m.len() == 5 && u.len() == 2 && c.len() == 4, "other entries");
    // the page selects what was asked for
    let mut a = page::request();
    a.method = METHODS[vs::choose("method", 5)].1;
    a.unit = UNITS[vs::choose("unit", 3)].1;
    let html = templates::Compare::render(&vec![], &a, "o".into(), &vec![], false);
    let (mut list, mut chosen) = (vec![], vec![]);
    for n in &read(html.as_bytes()) {
        if let Some(id) = attr(n, "id") { list = id.to_vec() }
        if attr(n, "selected").is_some() { chosen.push((list.clone(), String::from_utf8(attr(n, "value").expect("a value").to_vec()).unwrap())) }
    }
    let got = |id: &str| { let v: Vec<&String> = chosen.iter().filter(|c| c.0 == id.as_bytes()).map(|c| &c.1).collect(); vs::check(v.len() == 1, "not one is selected"); v[0].clone() };
    vs::check(named(&got("select_method"), &METHODS) == Some(a.method), "another method is selected");
    vs::check(named(&got("select_unit"), &UNITS) == Some(a.unit), "another dimension is selected");
    vs::cover("page");
}
#[derive(Parser)]
struct Line { #[clap(flatten)] p: CompareParams, #[clap(flatten)] f: FilterParams }
/// Every documented name, through the whole argument parser and the whole query parser.
#[no_mangle] pub extern "C" fn prop_c30_places() {
    vs::merge(false);
    let (m, u, c) = (METHODS[vs::choose("method", 5)], UNITS[vs::choose("unit", 3)], CHANGES[vs::choose("change", 4)]);
    if vs::choose("place", 2) == 0 {
        let up = |s: &str| if vs::choose("case", 2) == 1 { s.to_uppercase() } else { s.to_string() };
        let args = ["x".to_string(), "--method".into(), up(m.0), "--unit".into(), up(u.0), "--change".into(), up(c.0)];
        let Ok(l) = Line::try_parse_from(args) else { vs::check(false, "a documented name is refused"); return };
        vs::check(l.p.method == m.1 && l.p.unit == u.1 && l.f.change == Some(vec![c.1]), "another choice");
        vs::cover("command line");
    } else {
        let q = format!("old=a&new=b&repo=r&path_pattern=p&ignore_errors=false&threshold=3&unit={}&method={}", u.0, m.0);
        let Ok(a) = actix_web::web::Query::<CompareArgs>::from_query(&q) else { vs::check(false, "a documented name is refused"); return };
        vs::check(a.method == m.1 && a.unit == u.1, "another choice");
        vs::cover("query");
    }
}
