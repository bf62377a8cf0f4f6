//! C07 - C11: terms, scopes, evaluation, substitution, projection, printing.
use crate::util::*;
use std::collections::BTreeSet;

/// Leaves over a scope with x, y bound, z unbound.
fn leaf7() -> T {
    match vs::choose("leaf", 5) {
        0 => val(vs::u128a("v")),
        1 => sca(vs::u128a("s")),
        2 => var("x"),
        3 => var("y"),
        _ => var("z"),
    }
}
fn leaf7s() -> T {
    match vs::choose("leaf", 4) {
        0 => sca(vs::u128a("s")),
        1 => var("x"),
        2 => var("y"),
        _ => var("z"),
    }
}
fn c07(t: T) {
    // x is bound to a constant, y to an equation, z is unbound
    let (xv, a, b) = (vs::u128a("xv"), vs::u128a("ya"), vs::u128a("yb"));
    let yt = if vs::choose("yop", 2) == 0 { add(sca(a), mul(var("x"), val(b))) } else { mul(val(a), sca(b)) };
    let scope = SimpleScope::empty().with_var("x", sca(xv)).with_var("y", yt.clone());
    let ex = |n: &str| if n == "x" { Some(Ref { v: Some(xv), unbound: false }) } else { None };
    let yr = reference(&yt, &ex);
    let env = |n: &str| match n { "x" => ex("x"), "y" => Some(yr), _ => None };
    let want = reference(&t, &env);
    match t.eval(&scope) {
        Ok(v) => {
            vs::check(!want.unbound, "eval gives a value although a variable is unbound");
            match want.v {
                Some(w) => vs::check(v == w, "eval gives a wrong value"),
                None => vs::check(v == 0 && zero_product(&t, &env), "eval gives a value although the exact one is not representable"),
            }
        }
        Err(_) => vs::check(want.unbound || want.v.is_none(), "eval fails although the value exists"),
    }
}
#[no_mangle] pub extern "C" fn prop_c07_tree1() { c07(tree(1, &mut leaf7)) }
#[no_mangle] pub extern "C" fn prop_c07_tree2() { c07(tree(2, &mut leaf7s)) }
#[no_mangle] pub extern "C" fn prop_c07_tree2_5() { c07(tree(2, &mut leaf7)) }

// ---- the same for two-dimensional terms: a value is never wrong in either dimension
#[derive(Clone, Copy)]
enum R2 { W(Option<u128>, Option<u128>), S(u128), Bad }
fn ref2(t: &CT, env: &dyn Fn(&str) -> R2) -> R2 {
    match t {
        Term::Value(w) => R2::W(Some(w.time), Some(w.proof)),
        Term::Scalar(s) => R2::S(*s),
        Term::Var(n) => env(&n.0),
        Term::Add(a, b) => match (ref2(a, env), ref2(b, env)) {
            (R2::W(t, p), R2::W(u, q)) => R2::W(cadd(t, u), cadd(p, q)),
            _ => R2::Bad,
        },
        Term::Mul(a, b) => match (ref2(a, env), ref2(b, env)) {
            (R2::W(t, p), R2::S(s)) | (R2::S(s), R2::W(t, p)) => R2::W(cmul(t, Some(s)), cmul(p, Some(s))),
            _ => R2::Bad,
        },
    }
}
fn cleaf() -> CT {
    match vs::choose("leaf", 5) {
        0 => CT::Value((vs::u128a("t"), vs::u128a("p")).into()),
        1 => CT::Scalar(vs::u128a("s")),
        2 => cvar("n"),
        3 => cvar("W"),
        _ => cvar("z"),
    }
}
/// 2-D terms over n (bound to a scalar), W (bound to a weight) and z (unbound).
fn c07_2d(t: CT) {
    let (n, wt, wp) = (vs::u128a("n"), vs::u128a("Wt"), vs::u128a("Wp"));
    let scope = ChromaticScope::empty().with_var("n", CT::Scalar(n)).with_var("W", CT::Value((wt, wp).into()));
    let env = |v: &str| match v { "n" => R2::S(n), "W" => R2::W(Some(wt), Some(wp)), _ => R2::Bad };
    let want = ref2(&t, &env);
    if let Ok(w) = t.eval(&scope) {
        match want {
            R2::W(t, p) => {
                // a zero factor makes a product exact although its other factor is not representable
                vs::check(t.map_or(w.time == 0, |t| t == w.time), "eval gives a wrong time");
                vs::check(p.map_or(w.proof == 0, |p| p == w.proof), "eval gives a wrong proof size");
            }
            _ => vs::check(false, "eval gives a value although there is none"),
        }
        vs::cover("value");
    } else {
        // plain sums and scalings of weights by constants must not be refused
        if let R2::W(Some(_), Some(_)) = want { vs::check(!matches!(&t, Term::Value(_) | Term::Add(_, _)) || has_mul(&t), "eval fails although the value exists"); }
    }
}
fn has_mul(t: &CT) -> bool { match t { Term::Mul(_, _) => true, Term::Add(a, b) => has_mul(a) || has_mul(b), _ => false } }
#[no_mangle] pub extern "C" fn prop_c07_2d_tree1() { c07_2d(tree(1, &mut cleaf)) }
#[no_mangle] pub extern "C" fn prop_c07_2d_spine2() { c07_2d(spine(2, &mut cleaf)) }

// ---- C08
fn occurring(t: &T, out: &mut BTreeSet<String>) {
    match t {
        Term::Var(n) => { out.insert(n.0.clone()); }
        Term::Add(a, b) | Term::Mul(a, b) => { occurring(a, out); occurring(b, out); }
        _ => {}
    }
}
fn c08(t: T, names: &[String]) {
    let mut scope = SimpleScope::empty();
    let mut def: Vec<&String> = vec![];
    for n in names { scope.put_var(n, sca(vs::u128s("b", 0, 9))); def.push(n); }
    let mut occ = BTreeSet::new();
    occurring(&t, &mut occ);
    let (free, bound) = (t.free_vars(&scope), t.bound_vars(&scope));
    for n in &occ {
        let d = def.iter().any(|k| *k == n);
        vs::check(free.contains(n) != d, "a variable is free exactly if the scope does not define it");
        vs::check(bound.contains(n) == d, "a variable is bound exactly if the scope defines it");
    }
    for n in free.iter().chain(bound.iter()) { vs::check(occ.contains(n), "a variable that does not occur is listed"); }
    vs::check(free.len() + bound.len() == occ.len(), "free and bound variables partition the variables");
    match t.eval(&scope) {
        Ok(_) => { vs::check(free.is_empty(), "evaluation succeeds although a variable is free"); vs::cover("evaluates") }
        Err(_) => { vs::check(!free.is_empty(), "evaluation fails although no variable is free"); vs::cover("free") }
    }
}
fn leaf8() -> T {
    match vs::choose("leaf", 4) { 0 => sca(vs::u128s("s", 0, 9)), 1 => var("x"), 2 => var("x_"), _ => var("y") }
}
#[no_mangle] pub extern "C" fn prop_c08_names() {
    let t = tree(2, &mut leaf8);
    let m = vs::choose("scope", 8);
    let names: Vec<String> = ["x", "x_", "y"].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| n.to_string()).collect();
    c08(t, &names)
}
/// A name of `n` symbolic characters out of a, b, A and _.
fn symname(tag: &str, n: usize) -> String {
    let mut b = vec![];
    for _ in 0..n {
        let c = vs::u8s(tag, b'A', b'b');
        vs::assume(c == b'A' || c == b'_' || c == b'a' || c == b'b');
        b.push(c);
    }
    String::from_utf8(b).unwrap()
}
#[no_mangle] pub extern "C" fn prop_c08_symbolic_names() {
    let mut leaf = || match vs::choose("leaf", 2) { 0 => val(vs::u128s("v", 0, 9)), _ => T::Var(VarValue(symname("n", 2))) };
    let t = tree(1, &mut leaf);
    let k = vs::choose("scope", 3);
    let names: Vec<String> = (0..k).map(|_| symname("d", 2)).collect();
    c08(t, &names)
}
#[no_mangle] pub extern "C" fn prop_c08_symbolic_spine2() {
    let mut leaf = || match vs::choose("leaf", 2) { 0 => val(vs::u128s("v", 0, 9)), _ => T::Var(VarValue(symname("n", 1))) };
    let t = spine(2, &mut leaf);
    let k = vs::choose("scope", 3);
    let names: Vec<String> = (0..k).map(|_| symname("d", 1)).collect();
    c08(t, &names)
}

// ---- C09
fn rsubst(t: &T, x: &str, by: &T) -> T {
    match t {
        Term::Var(n) if n.0 == x => by.clone(),
        Term::Add(a, b) => add(rsubst(a, x, by), rsubst(b, x, by)),
        Term::Mul(a, b) => mul(rsubst(a, x, by), rsubst(b, x, by)),
        t => t.clone(),
    }
}
fn c09(t: T, by: T) {
    let want = rsubst(&t, "x", &by);
    let mut got = t.clone();
    got.substitute("x", &by);
    vs::check(same(&got, &want), "substitution changes something else or misses an occurrence");
    let got2 = t.clone().into_substituted("x", &by);
    vs::check(same(&got2, &want), "into_substituted changes something else or misses an occurrence");
    if !occurs(&by, "x") { vs::check(!occurs(&got, "x"), "the variable still occurs"); }
    // the value is the one of the original with x bound to the value of the substitute
    let base = SimpleScope::empty().with_var("x_", sca(vs::u128s("x_", 0, 99))).with_var("y", sca(vs::u128s("yv", 0, 99)));
    if let Ok(b) = by.eval(&base) {
        let (l, r) = (got.eval(&base), t.eval(&base.with_var("x", sca(b))));
        match (l, r) {
            (Ok(l), Ok(r)) => { vs::check(l == r, "substitution changes the value"); vs::cover("value") }
            (l, r) => vs::check(l.is_err() == r.is_err(), "substitution changes whether there is a value"),
        }
    }
}
fn subst_by() -> T {
    match vs::choose("by", 5) { 0 => sca(vs::u128s("c", 0, 99)), 1 => var("y"), 2 => add(var("y"), val(vs::u128s("c", 0, 99))), 3 => mul(var("y"), var("x_")), _ => add(var("x"), val(1)) }
}
fn leaf9() -> T {
    match vs::choose("leaf", 5) { 0 => sca(vs::u128s("s", 0, 99)), 1 => var("x"), 2 => var("x_"), 3 => var("y"), _ => val(vs::u128s("v", 0, 99)) }
}
#[no_mangle] pub extern "C" fn prop_c09_tree1() { c09(tree(1, &mut leaf9), subst_by()) }
fn leaf9s() -> T { match vs::choose("leaf", 3) { 0 => sca(vs::u128s("s", 0, 99)), 1 => var("x"), _ => var("x_") } }
#[no_mangle] pub extern "C" fn prop_c09_tree2() {
    let by = match vs::choose("by", 2) { 0 => sca(vs::u128s("c", 0, 99)), _ => add(var("y"), val(vs::u128s("c", 0, 99))) };
    c09(tree(2, &mut leaf9s), by)
}
/// Names of one or two symbolic characters: only the exact name is substituted.
#[no_mangle] pub extern "C" fn prop_c09_symbolic_names() {
    let (n, m) = (symname("n", 2), symname("m", 1));
    let x = if vs::choose("len", 2) == 0 { symname("x", 2) } else { symname("x", 1) };
    let t = add(mul(T::Var(VarValue(n.clone())), val(3)), T::Var(VarValue(m.clone())));
    let got = t.clone().into_substituted(&x, &sca(7));
    let f = |k: &String| if *k == x { sca(7) } else { T::Var(VarValue(k.clone())) };
    vs::check(same(&got, &add(mul(f(&n), val(3)), f(&m))), "substitution by name");
}

// ---- C10
fn simple(s: &[(&str, CT)], d: Dimension) -> SimpleScope {
    let mut r = SimpleScope::empty();
    for (n, t) in s { r.put_var(n, t.simplify(d).unwrap()); }
    r
}
fn c10(t: CT) {
    let vars = [("n", CT::Scalar(vs::u128a("n"))), ("W", CT::Value((vs::u128a("Wt"), vs::u128a("Wp")).into()))];
    let mut scope = ChromaticScope::empty();
    for (n, v) in &vars { scope.put_var(n, v.clone()); }
    if let Ok(w) = t.eval(&scope) {
        vs::cover("value");
        for (d, want) in [(Dimension::Time, w.time), (Dimension::Proof, w.proof)] {
            let s = t.simplify(d).unwrap();
            match s.eval(&simple(&vars, d)) {
                Ok(v) => vs::check(v == want, "reducing to a dimension changes the value"),
                Err(_) => vs::check(false, "reducing to a dimension loses the value"),
            }
        }
    }
}
#[no_mangle] pub extern "C" fn prop_c10_tree1() { c10(tree(1, &mut cleaf)) }
#[no_mangle] pub extern "C" fn prop_c10_spine2() { c10(spine(2, &mut cleaf)) }
fn small() -> T {
    match vs::choose("leaf", 4) { 0 => val(vs::u128a("v")), 1 => sca(vs::u128a("s")), 2 => var("x"), _ => var("y") }
}
fn c10_lift(t: T) {
    let (x, y) = (vs::u128a("x"), vs::u128a("y"));
    let scope = SimpleScope::empty().with_var("x", sca(x)).with_var("y", val(y));
    if let Ok(v) = t.eval(&scope) {
        vs::cover("value");
        let (d, o) = if vs::choose("dim", 2) == 0 { (Dimension::Time, Dimension::Proof) } else { (Dimension::Proof, Dimension::Time) };
        let c = t.clone().into_chromatic(d);
        vs::check(c.simplify(d).unwrap().eval(&scope) == Ok(v), "lifting changes the value");
        vs::check(c.simplify(o).unwrap().eval(&scope) == Ok(0), "lifting adds to the other dimension");
    }
}
#[no_mangle] pub extern "C" fn prop_c10_lift1() { c10_lift(tree(1, &mut small)) }
fn small0() -> T { match vs::choose("leaf", 3) { 0 => sca(vs::u128s("s", 0, 999)), 1 => var("x"), _ => var("y") } }
#[no_mangle] pub extern "C" fn prop_c10_lift2() {
    let t = tree(2, &mut small0);
    let (x, y) = (vs::u128s("x", 0, 15), vs::u128s("y", 0, 15));
    let scope = SimpleScope::empty().with_var("x", sca(x)).with_var("y", sca(y));
    let v = t.eval(&scope).unwrap();
    let (d, o) = if vs::choose("dim", 2) == 0 { (Dimension::Time, Dimension::Proof) } else { (Dimension::Proof, Dimension::Time) };
    let c = t.clone().into_chromatic(d);
    vs::check(c.simplify(d).unwrap().eval(&scope) == Ok(v), "lifting changes the value");
    vs::check(c.simplify(o).unwrap().eval(&scope) == Ok(0), "lifting adds to the other dimension");
}
fn part(tag: &str) -> CT {
    let v = |n: &str| vs::u128s(n, 0, 1 << 100);
    let k = vs::choose(tag, 5);
    let name = if (k == 2 || k == 3) && vs::choose("component", 2) == 1 { "_n" } else { "n" };
    match k {
        0 => CT::Value((v("t"), v("p")).into()),
        1 => CT::Add(Box::new(CT::Value((v("t"), v("p")).into())), Box::new(CT::Value((v("t"), v("p")).into()))),
        2 => CT::Mul(Box::new(CT::Value((v("t"), v("p")).into())), Box::new(cvar(name))),
        3 => CT::Add(Box::new(CT::Value((v("t"), v("p")).into())), Box::new(CT::Mul(Box::new(CT::Value((v("t"), v("p")).into())), Box::new(cvar(name))))),
        _ => CT::Add(Box::new(CT::Add(Box::new(CT::Value((v("t"), v("p")).into())), Box::new(CT::Value((v("t"), v("p")).into())))), Box::new(cvar("W"))),
    }
}
#[no_mangle] pub extern "C" fn prop_c10_splice() {
    vs::merge(false);
    let (a, b) = (part("a"), part("b"));
    let c = a.clone().splice_add(b.clone());
    // The sum cannot depend on the components, which it does not see: it is linear in both of them.
    let (n, m) = [(0, 1), (3, 5), (1000, 2)][vs::choose("components", 3)];
    let vars = [("n", CT::Scalar(n)), ("_n", CT::Scalar(m)), ("W", CT::Value((vs::u128s("Wt", 0, 1 << 100), vs::u128s("Wp", 0, 1 << 100)).into()))];
    for d in [Dimension::Time, Dimension::Proof] {
        let s = simple(&vars, d);
        let (x, y) = (a.simplify(d).unwrap().eval(&s).unwrap(), b.simplify(d).unwrap().eval(&s).unwrap());
        vs::check(c.simplify(d).unwrap().eval(&s) == Ok(x + y), "combining two parts loses or changes a value");
    }
}

// ---- C11
/// Reads a printed equation. `big` maps the text of constants of 1000 and more to their value.
struct Rd<'a> { s: &'a [u8], p: usize, big: &'a [(String, u128)], env: &'a dyn Fn(&str) -> u128, ok: bool }
impl<'a> Rd<'a> {
    fn ws(&mut self) { while self.p < self.s.len() && self.s[self.p] == b' ' { self.p += 1 } }
    fn expr(&mut self) -> u128 {
        let mut v = self.term();
        loop { self.ws(); if self.p < self.s.len() && self.s[self.p] == b'+' { self.p += 1; v += self.term() } else { return v } }
    }
    fn term(&mut self) -> u128 {
        let mut v = self.fac();
        loop { self.ws(); if self.p < self.s.len() && self.s[self.p] == b'*' { self.p += 1; v *= self.fac() } else { return v } }
    }
    fn fac(&mut self) -> u128 {
        self.ws();
        if self.p < self.s.len() && self.s[self.p] == b'(' {
            self.p += 1;
            let v = self.expr();
            self.ws();
            if self.p < self.s.len() && self.s[self.p] == b')' { self.p += 1 } else { self.ok = false }
            return v;
        }
        let st = self.p;
        while self.p < self.s.len() && !matches!(self.s[self.p], b' ' | b'+' | b'*' | b'(' | b')') { self.p += 1 }
        let w = std::str::from_utf8(&self.s[st..self.p]).unwrap();
        if w.is_empty() { self.ok = false; return 0 }
        let c = w.as_bytes()[0];
        for (k, v) in self.big { if k == w { return *v } }
        if let Some(v) = number(w) { return v }
        if c.is_ascii_alphabetic() { return (self.env)(w) }
        self.ok = false;
        0
    }
}
/// An integer as printed, or the token of a symbolic one.
pub fn number(w: &str) -> Option<u128> {
    let b = w.as_bytes();
    if b.len() == 7 && b[0] == b'~' && b[6] == b'~' {
        let id: u64 = w[1..6].parse().ok()?;
        return Some(vs::token_value(id).0);
    }
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) { return None }
    w.parse().ok()
}
fn consts(t: &T, out: &mut Vec<u128>) {
    match t { Term::Value(v) | Term::Scalar(v) => out.push(*v), Term::Add(a, b) | Term::Mul(a, b) => { consts(a, out); consts(b, out) } _ => {} }
}
fn c11(t: T) {
    let (x, y) = (vs::u128s("x", 0, 7), vs::u128s("y", 0, 7));
    let scope = SimpleScope::empty().with_var("x", sca(x)).with_var("y", sca(y));
    let want = t.eval(&scope).unwrap();
    let text = format!("{}", t);
    let mut cs = vec![];
    consts(&t, &mut cs);
    let mut big: Vec<(String, u128)> = vec![];
    for c in cs {
        let s = Dimension::fmt_scalar(c);
        if s.as_bytes().last().map_or(false, |c| c.is_ascii_alphabetic()) {
            // rounded constants that look the same are not told apart
            vs::assume(big.iter().all(|(k, v)| *k != s || *v == c));
            big.push((s, c));
        }
    }
    let env = |n: &str| if n == "x" { x } else { y };
    let mut r = Rd { s: text.as_bytes(), p: 0, big: &big, env: &env, ok: true };
    let got = r.expr();
    r.ws();
    vs::check(r.ok && r.p == r.s.len(), "the printed equation is malformed");
    vs::check(got == want, "the printed equation has another value");
}
fn leaf11() -> T { match vs::choose("leaf", 3) { 0 => sca(vs::u128s("s", 0, 31)), 1 => val(vs::u128s("v", 0, 31)), _ => var("x") } }
fn leaf11s() -> T { match vs::choose("leaf", 2) { 0 => sca(vs::u128s("s", 0, 15)), _ => var("x") } }
fn leaf11b() -> T { match vs::choose("leaf", 3) { 0 => sca(vs::u128s("s", 0, 1 << 40)), 1 => var("y"), _ => var("x") } }
#[no_mangle] pub extern "C" fn prop_c11_tree1() { c11(tree(1, &mut leaf11)) }
#[no_mangle] pub extern "C" fn prop_c11_tree2() { c11(tree(2, &mut leaf11s)) }
#[no_mangle] pub extern "C" fn prop_c11_big() { c11(tree(1, &mut leaf11b)) }
fn leaf11t() -> T { match vs::choose("leaf", 2) { 0 => sca(vs::u128s("s", 0, 3)), _ => var("x") } }
#[no_mangle] pub extern "C" fn prop_c11_spine3_small() { c11(spine(3, &mut leaf11t)) }
#[no_mangle] pub extern "C" fn prop_c11_spine3() { c11(spine(3, &mut leaf11s)) }
