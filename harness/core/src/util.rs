pub use subweight_core::{term::*, scope::*, traits::*, *};
pub type T = SimpleTerm;
pub type CT = ChromaticTerm;
pub fn val(v: u128) -> T { T::Value(v) }
pub fn sca(v: u128) -> T { T::Scalar(v) }
pub fn var(v: &str) -> T { T::Var(VarValue(v.to_string())) }
pub fn add(a: T, b: T) -> T { T::Add(Box::new(a), Box::new(b)) }
pub fn mul(a: T, b: T) -> T { T::Mul(Box::new(a), Box::new(b)) }
pub fn cvar(v: &str) -> CT { CT::Var(VarValue(v.to_string())) }

/// A term of at most the given height; `leaf` draws a leaf.
pub fn tree<X>(height: usize, leaf: &mut dyn FnMut() -> Term<X>) -> Term<X> {
    let k = if height == 0 { 0 } else { vs::choose("node", 3) };
    match k {
        0 => leaf(),
        1 => { let a = tree(height - 1, leaf); let b = tree(height - 1, leaf); Term::Add(Box::new(a), Box::new(b)) }
        _ => { let a = tree(height - 1, leaf); let b = tree(height - 1, leaf); Term::Mul(Box::new(a), Box::new(b)) }
    }
}
/// A degenerate tree: `n` operators on one path, the other operand of each being a leaf.
pub fn spine<X>(n: usize, leaf: &mut dyn FnMut() -> Term<X>) -> Term<X> {
    let mut t = leaf();
    for _ in 0..n {
        let o = leaf();
        t = match vs::choose("link", 4) {
            0 => Term::Add(Box::new(t), Box::new(o)), 1 => Term::Add(Box::new(o), Box::new(t)),
            2 => Term::Mul(Box::new(t), Box::new(o)), _ => Term::Mul(Box::new(o), Box::new(t)),
        };
    }
    t
}
/// Result of the reference semantics. `v`: exact value when no intermediate result exceeds 128 bits.
#[derive(Clone, Copy)]
pub struct Ref { pub v: Option<u128>, pub unbound: bool }
/// Mathematical value of a term; a variable has the value `env` gives it.
pub fn reference(t: &T, env: &dyn Fn(&str) -> Option<Ref>) -> Ref {
    match t {
        Term::Value(v) | Term::Scalar(v) => Ref { v: Some(*v), unbound: false },
        Term::Var(n) => env(&n.0).unwrap_or(Ref { v: None, unbound: true }),
        Term::Add(a, b) => { let (a, b) = (reference(a, env), reference(b, env)); Ref { v: cadd(a.v, b.v), unbound: a.unbound | b.unbound } }
        Term::Mul(a, b) => { let (a, b) = (reference(a, env), reference(b, env)); Ref { v: cmul(a.v, b.v), unbound: a.unbound | b.unbound } }
    }
}
pub fn cadd(a: Option<u128>, b: Option<u128>) -> Option<u128> { match (a, b) { (Some(a), Some(b)) => a.checked_add(b), _ => None } }
pub fn cmul(a: Option<u128>, b: Option<u128>) -> Option<u128> { match (a, b) { (Some(a), Some(b)) => a.checked_mul(b), _ => None } }
/// Value of a term whose intermediate results may exceed 128 bits but which is zero because of a zero factor.
pub fn zero_product(t: &T, env: &dyn Fn(&str) -> Option<Ref>) -> bool {
    match t {
        Term::Mul(a, b) => is0(a, env) || is0(b, env),
        Term::Add(a, b) => is0(a, env) && is0(b, env),
        _ => false,
    }
}
fn is0(t: &T, env: &dyn Fn(&str) -> Option<Ref>) -> bool { reference(t, env).v == Some(0) || zero_product(t, env) }
pub fn occurs(t: &T, x: &str) -> bool {
    match t { Term::Var(n) => n.0 == x, Term::Add(a, b) | Term::Mul(a, b) => occurs(a, x) || occurs(b, x), _ => false }
}
/// Exact structural identity (variable names compared literally).
pub fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (Term::Value(x), Term::Value(y)) => x == y,
        (Term::Scalar(x), Term::Scalar(y)) => x == y,
        (Term::Var(x), Term::Var(y)) => x.0 == y.0,
        (Term::Add(a, b), Term::Add(c, d)) | (Term::Mul(a, b), Term::Mul(c, d)) => same(a, c) && same(b, d),
        _ => false,
    }
}
