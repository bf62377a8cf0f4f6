//! C01 - C06: what the parser reads from weight files.
use crate::util::*;
use subweight_core::parse::{overhead, pallet, pallet::ChromaticExtrinsic, storage};

/// `n` symbolic decimal digits, the first one not zero.
fn digits(s: &mut String, tag: &str, n: usize) -> u128 {
    let mut v = 0u128;
    for i in 0..n {
        let d = vs::u8s(tag, if i == 0 { b'1' } else { b'0' }, b'9');
        unsafe { s.as_mut_vec() }.push(d);
        v = v * 10 + (d - b'0') as u128;
    }
    v
}
fn file(fns: &str) -> String { format!("impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {{ {} }}", fns) }
fn parse(fns: &str) -> Result<Vec<ChromaticExtrinsic>, String> { pallet::parse_content("p.rs".into(), file(fns)) }


/// A decimal number of `n` digits, the first one not zero, and its value, None beyond 128 bits. Numbers of 39
/// digits and more are split by the first digit that differs from the largest number, which covers all of them.
fn decimal(n: usize) -> (String, Option<u128>) {
    const MAX: &[u8] = b"340282366920938463463374607431768211455";
    let mut s = String::new();
    if n < 39 { let v = digits(&mut s, "d", n); return (s, Some(v)) }
    let (at, more) = (vs::choose("differs", 40), vs::choose("more", 2) == 1);
    let mut v = 0u128;
    for i in 0..n {
        let first = if i == 0 { b'1' } else { b'0' };
        let d = match i {
            _ if i < at && i < 39 => MAX[i],
            _ if i == at && i < 39 => {
                vs::assume(if more { MAX[i] < b'9' } else { MAX[i] > first });
                if more { vs::u8s("d", MAX[i] + 1, b'9') } else { vs::u8s("d", first, MAX[i] - 1) }
            }
            _ => vs::u8s("d", b'0', b'9'),
        };
        unsafe { s.as_mut_vec() }.push(d);
        v = v.wrapping_mul(10).wrapping_add((d - b'0') as u128);
    }
    (s, if n == 39 && (!more || at == 39) { Some(v) } else { None })
}
/// Places where a literal stands, with the value that is read there.
const PLACES: usize = 8;
fn place(k: usize, lit: &str) -> Result<u128, String> {
    let one = |body: String, d: Dimension| parse(&format!("fn f() -> Weight {{ {} }}", body)).map(|w| { vs::check(w.len() == 1, "not one weight"); value(&w[0].term, d, 1, 0) });
    match k {
        0 => one(format!("Weight::from_ref_time({})", lit), Dimension::Time),
        1 => one(format!("Weight::from_proof_size({} as u64)", lit), Dimension::Proof),
        2 => one(format!("Weight::from_parts({}, 7)", lit), Dimension::Time),
        3 => one(format!("Weight::from_parts(7, {})", lit), Dimension::Proof),
        4 => one(format!("T::DbWeight::get().reads({})", lit), Dimension::Time),
        5 => one(format!("({} as Weight)", lit), Dimension::Time),
        6 => storage::parse_content(format!("parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {}, write: 2 }}; }}", lit)).map(|w| w.weights.read.eval(&SimpleScope::empty()).unwrap()),
        _ => overhead::parse_content(format!("parameter_types! {{ pub const BlockExecutionWeight: Weight = {} * K; }}", lit)).map(|w| match w { overhead::Weight::BlockExecution(t) => t.simplify(Dimension::Time).unwrap().eval(&SimpleScope::empty().with_var("K", sca(1))).unwrap(), _ => { vs::check(false, "wrong kind"); 0 } }),
    }
}
/// Value in a dimension with READ and WRITE bound.
fn value(t: &CT, d: Dimension, r: u128, w: u128) -> u128 { t.simplify(d).unwrap().eval(&SimpleScope::empty().with_storage_weights(sca(r), sca(w))).unwrap() }

// ---- C02
const SUFFIX: [&str; 14] = ["", "u64", "_u64", "u8", "u16", "u32", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
fn verdict(got: Result<u128, String>, want: Option<u128>) {
    match (got, want) {
        (Ok(g), Some(w)) => { vs::cover("read"); vs::check(g == w, "a literal is read as another number") }
        (Err(_), None) => vs::cover("rejected"),
        (Ok(_), None) => vs::check(false, "a literal that is no 128 bit integer is accepted"),
        (Err(_), Some(_)) => vs::check(false, "an integer literal is rejected"),
    }
}
fn length(lo: usize, hi: usize) {
    let k = vs::choose("place", PLACES);
    let (s, v) = decimal(lo + vs::choose("length", hi - lo + 1));
    verdict(place(k, &s), v);
}
#[no_mangle] pub extern "C" fn prop_c02_short() { length(1, 19) }
#[no_mangle] pub extern "C" fn prop_c02_medium() { length(20, 37) }
#[no_mangle] pub extern "C" fn prop_c02_long() {
    let (s, v) = decimal(38 + vs::choose("length", 4));
    verdict(place(vs::choose("place", 2) * 6, &s), v);
}
/// Leading zeros, any grouping by underscores, every suffix.
#[no_mangle] pub extern "C" fn prop_c02_form() {
    let n = 1 + vs::choose("digits", 5);
    let (mut s, mut v) = (String::new(), 0u128);
    for i in 0..n {
        let d = vs::u8s("d", b'0', b'9');
        // a leading `0b`, `0o`, `0x` or `0e` cannot arise: digits and underscores only
        unsafe { s.as_mut_vec() }.push(d);
        v = v * 10 + (d - b'0') as u128;
        if i + 1 < n { match vs::choose("group", 3) { 0 => {}, 1 => s.push('_'), _ => s.push_str("__") } }
    }
    s.push_str(SUFFIX[vs::choose("suffix", SUFFIX.len())]);
    verdict(place(0, &s), Some(v));
}
/// Large numbers in groups of three.
#[no_mangle] pub extern "C" fn prop_c02_groups() {
    let n = [4, 7, 12, 20, 38, 39, 40][vs::choose("digits", 7)];
    let (ds, v) = decimal(n);
    let mut s = String::new();
    for i in 0..n { unsafe { s.as_mut_vec().push(ds.as_bytes()[i]) }; if (n - 1 - i) % 3 == 0 && i + 1 < n { s.push('_') } }
    if vs::choose("suffix", 2) == 1 { s.push_str("u128") }
    verdict(place(vs::choose("place", 2) * 3, &s), v);
}
/// Literals of other kinds.
#[no_mangle] pub extern "C" fn prop_c02_other() {
    let plain = |n| { let mut s = String::new(); digits(&mut s, "d", n); s };
    let (a, b) = (plain(2), plain(1));
    let s = match vs::choose("kind", 18) {
        0 => format!("{}.{}", a, b), 1 => format!("{}.", a), 2 => format!("{}e{}", a, b), 3 => format!("{}f64", a), 4 => format!("{}E+{}", a, b), 5 => format!("{}.{}f32", a, b),
        6 => format!("\"{}\"", a), 7 => format!("'{}'", b), 8 => format!("b'{}'", b), 9 => format!("b\"{}\"", a), 10 => "true".into(), 11 => "false".into(), 12 => format!("r#\"{}\"#", a), 13 => format!("{}u65", a), 14 => format!("{}kb", a), 15 => format!("0x{}f64u8z", a), 16 => format!("{}f32", a), _ => format!("-{}", a),
    };
    verdict(place(vs::choose("place", PLACES), &s), None);
}
/// Integers in other bases.
#[no_mangle] pub extern "C" fn prop_c02_base() {
    let n = 1 + vs::choose("digits", 3);
    let (p, base, hi) = [("0b", 2u128, b'1'), ("0o", 8, b'7'), ("0x", 16, b'9')][vs::choose("base", 3)];
    let (mut s, mut v) = (String::from(p), 0u128);
    for _ in 0..n {
        let letter = base == 16 && vs::choose("letter", 2) == 1;
        let d = if letter { vs::u8s("d", b'a', b'f') } else { vs::u8s("d", b'0', hi) };
        unsafe { s.as_mut_vec().push(d) };
        v = v * base + if letter { (d - b'a') as u128 + 10 } else { (d - b'0') as u128 };
    }
    verdict(place(vs::choose("place", PLACES), &s), Some(v));
}
/// A digit, any character and a digit or nothing: what is accepted is a number, and this number.
#[no_mangle] pub extern "C" fn prop_c02_character() {
    let a = [b'0', b'7'][vs::choose("first", 2)];
    let c = vs::u8s("c", 0x20, 0x7e);
    let mut t = vec![a, c];
    let last = vs::choose("last", 2) == 1;
    if last { t.push(vs::u8s("d", b'0', b'9')) }
    let db = vs::choose("place", 2) == 1;
    let got = place(if db { 6 } else { 0 }, &String::from_utf8(t.clone()).unwrap());
    let n = |x: u8| (x - b'0') as u128;
    let dig = c >= b'0' && c <= b'9';
    let want = if last { let d = t[2];
        if dig { Some(n(a) * 100 + n(c) * 10 + n(d)) } else if c == b'_' { Some(n(a) * 10 + n(d)) } else if (c == b'u' || c == b'i') && d == b'8' { Some(n(a)) }
        else if a == b'0' && (c == b'x' || c == b'o' && d < b'8' || c == b'b' && d < b'2') { Some(n(d)) }
        else if db && c == b'+' { Some(n(a) + n(d)) } else if db && c == b'*' { Some(n(a) * n(d)) } else { None }
    } else if dig { Some(n(a) * 10 + n(c)) } else if c == b'_' || c == b' ' || c == b',' { Some(n(a)) } else { None };
    match got {
        // a space or comma ends the literal
        Ok(v) => { vs::check(want == Some(v), "read as another number, or no number"); vs::cover("read") }
        Err(_) => { vs::check(want.is_none() || c == b',' || c == b' ', "a number is rejected"); vs::cover("rejected") }
    }
}

// ---- C01
/// Source text of an expression and its value in both dimensions.
struct G { s: String, t: u128, p: u128 }
/// Values of components, a constant and the storage operations.
struct Env { n: u128, m: u128, k: u128, r: u128, w: u128 }
fn env() -> Env { Env { n: vs::u32s("n", 0, 1 << 20) as u128, m: vs::u32s("m", 0, 1 << 20) as u128, k: vs::u128s("K", 0, 1 << 20), r: vs::u128s("READ", 0, 1 << 40), w: vs::u128s("WRITE", 0, 1 << 40) } }
fn lit(n: usize) -> (String, u128) { let mut s = String::new(); let v = digits(&mut s, "d", n); (s, v) }
fn pick<X: Copy>(tag: &str, l: &[X]) -> X { l[vs::choose(tag, l.len())] }
/// A number: literal, component, constant, or a combination of them.
fn number(e: &Env, depth: usize) -> (String, u128) {
    let k = vs::choose("number", if depth == 0 { 6 } else { 8 });
    match k {
        0 => lit(3),
        1 => { let (s, v) = lit(2); (format!("{} as u64", s), v) }
        2 => ("n.into()".into(), e.n),
        3 => ("m as u64".into(), e.m),
        4 => { let (s, v) = lit(2); (format!("({}_u64).into()", s), v) }
        5 => ("K".into(), e.k),
        _ => {
            let (a, b) = (number(e, depth - 1), number(e, 0));
            if k == 6 { (format!("({}).saturating_mul({})", a.0, b.0), a.1 * b.1) } else { (format!("({}).saturating_add({})", a.0, b.0), a.1 + b.1) }
        }
    }
}
/// A multiplier of a weight.
fn factor(e: &Env) -> (String, u128) {
    match vs::choose("factor", 4) { 0 => ("n.into()".into(), e.n), 1 => ("(m as u64)".into(), e.m), 2 => ("n".into(), e.n), _ => ("K.into()".into(), e.k) }
}
const DB: [&str; 4] = ["T::DbWeight::get()", "RocksDbWeight::get()", "ParityDbWeight::get()", "frame_support::weights::constants::RocksDbWeight::get()"];
fn database(e: &Env, depth: usize) -> G {
    let (c, v) = number(e, depth);
    let db = DB[if depth == 0 { 0 } else { vs::choose("db", 4) }];
    if vs::choose("op", 2) == 0 { G { s: format!("{}.reads({})", db, c), t: v * e.r, p: 0 } } else { G { s: format!("{}.writes({})", db, c), t: v * e.w, p: 0 } }
}
/// A weight without sums and products.
fn leaf(e: &Env, depth: usize) -> G {
    match vs::choose("leaf", 5) {
        0 => { let (a, b) = (number(e, depth), number(e, 0)); G { s: format!("Weight::from_parts({}, {})", a.0, b.0), t: a.1, p: b.1 } }
        1 => { let a = number(e, depth); G { s: format!("Weight::from_ref_time({})", a.0), t: a.1, p: 0 } }
        2 => { let a = number(e, depth); G { s: format!("Weight::from_proof_size({})", a.0), t: 0, p: a.1 } }
        3 => G { s: "Weight::zero()".into(), t: 0, p: 0 },
        _ => database(e, depth),
    }
}
/// The same with plain literals only.
fn plain(e: &Env) -> G {
    match vs::choose("leaf", 6) {
        0 => { let (a, b) = (lit(2), lit(2)); G { s: format!("Weight::from_parts({}, {})", a.0, b.0), t: a.1, p: b.1 } }
        1 => { let a = lit(2); G { s: format!("Weight::from_ref_time({})", a.0), t: a.1, p: 0 } }
        2 => { let a = lit(2); G { s: format!("Weight::from_proof_size({})", a.0), t: 0, p: a.1 } }
        3 => G { s: "Weight::zero()".into(), t: 0, p: 0 },
        4 => { let a = lit(2); G { s: format!("T::DbWeight::get().reads({})", a.0), t: a.1 * e.r, p: 0 } }
        _ => G { s: "T::DbWeight::get().writes((2_u64).saturating_mul(n.into()))".into(), t: 2 * e.n * e.w, p: 0 },
    }
}
fn plus(a: G, b: G) -> G { G { s: format!("{}.saturating_add({})", a.s, b.s), t: a.t + b.t, p: a.p + b.p } }
fn times(a: G, f: (String, u128)) -> G { G { s: format!("{}.saturating_mul({})", a.s, f.0), t: a.t * f.1, p: a.p * f.1 } }
fn wrap(a: G) -> G { match vs::choose("wrap", 4) { 0 => a, 1 => G { s: format!("({})", a.s), ..a }, 2 => G { s: format!("({} as Weight)", a.s), ..a }, _ => G { s: format!("{}.into()", a.s), ..a } } }
/// Any tree of sums and products.
fn weight(e: &Env, depth: usize) -> G {
    match if depth == 0 { 0 } else { vs::choose("weight", 3) } {
        0 => plain(e),
        1 => { let a = weight(e, depth - 1); let b = weight(e, depth - 1); plus(a, b) }
        _ => { let a = weight(e, depth - 1); times(a, (["n.into()", "m"][depth & 1].into(), [e.n, e.m][depth & 1])) }
    }
}
fn denotes(g: &G, e: &Env) {
    match parse(&format!("fn f(n: u32, m: u32, ) -> Weight {{ {} }}", g.s)) {
        Ok(w) => {
            vs::check(w.len() == 1 && w[0].name == "f" && w[0].pallet == "p.rs", "not the one weight of the file");
            let at = |d: Dimension| {
                let (r, w_) = if d == Dimension::Time { (e.r, e.w) } else { (0, 0) };
                let sc = SimpleScope::empty().with_storage_weights(sca(r), sca(w_)).with_var("n", sca(e.n)).with_var("m", sca(e.m)).with_var("K", sca(e.k));
                w[0].term.simplify(d).unwrap().eval(&sc)
            };
            vs::check(at(Dimension::Time) == Ok(g.t), "the time is not what the source says");
            vs::check(at(Dimension::Proof) == Ok(g.p), "the proof size is not what the source says");
            vs::cover("parsed");
        }
        Err(_) => vs::check(false, "a weight function is rejected"),
    }
}
#[no_mangle] pub extern "C" fn prop_c01_leaf() { let e = env(); let g = leaf(&e, 1); denotes(&g, &e) }
#[no_mangle] pub extern "C" fn prop_c01_wrap() { let e = env(); let g = wrap(plain(&e)); let h = wrap(times(g, factor(&e))); let h = wrap(plus(h, plain(&e))); denotes(&h, &e) }
#[no_mangle] pub extern "C" fn prop_c01_tree() { let e = env(); let g = weight(&e, 2); denotes(&g, &e) }
/// The usual form: a sum of weights, some of them per component.
#[no_mangle] pub extern "C" fn prop_c01_chain() {
    let e = env();
    let mut g = plain(&e);
    for _ in 0..1 + vs::choose("length", 2) { let mut h = plain(&e); if vs::choose("each", 2) == 1 { h = times(h, factor(&e)) } g = plus(g, h) }
    denotes(&g, &e)
}
/// One dimensional syntax: numbers are times.
fn old(e: &Env, depth: usize) -> (String, u128) {
    match if depth == 0 { 0 } else { vs::choose("weight", 3) } {
        0 => {
            let (s, v) = lit(2);
            match vs::choose("old", 6) {
                0 => (format!("({} as Weight)", s), v),
                1 => (format!("Weight::from_ref_time({} as u64)", s), v),
                2 => (format!("T::DbWeight::get().reads({} as Weight)", s), v * e.r),
                3 => (format!("T::DbWeight::get().writes(({} as Weight).saturating_mul(n as Weight))", s), v * e.n * e.w),
                4 => (format!("({}).into()", s), v),
                _ => ("Weight::zero()".into(), 0),
            }
        }
        1 => { let (a, b) = (old(e, depth - 1), old(e, depth - 1)); (format!("{}.saturating_add({})", a.0, b.0), a.1 + b.1) }
        _ => { let (a, f) = (old(e, depth - 1), pick("by", &[("n as Weight", 0), ("(m as u64)", 1), ("7", 2)])); (format!("{}.saturating_mul({})", a.0, f.0), a.1 * [e.n, e.m, 7][f.1]) }
    }
}
#[no_mangle] pub extern "C" fn prop_c01_old() { let e = env(); let (s, t) = old(&e, 2); denotes(&G { s, t, p: 0 }, &e) }

// ---- C05
fn ranged(attrs: &str, body: &str) -> Result<Vec<ChromaticExtrinsic>, String> { parse(&format!("{} fn f(c: u32, ) -> Weight {{ {} }}", attrs, body)) }
/// Compiles the expressions of the parser before the cases part.
fn warm() { let r = ranged("/// The range of component `c` is `[0, 1]`.\n", "Weight::zero()"); vs::check(r.is_ok(), "a plain range is rejected"); }
fn annotated(r: Result<Vec<ChromaticExtrinsic>, String>, name: &str, min: u128, max: u128) {
    let good = min <= max && max <= u32::MAX as u128;
    match r {
        Ok(x) => {
            vs::check(good, "a range that is empty or too large is accepted");
            let rs = x[0].comp_ranges.as_ref();
            vs::check(rs.is_some() && rs.unwrap().len() == 1, "not one range");
            let g = rs.unwrap().get(name);
            vs::check(g.is_some() && g.unwrap().min as u128 == min && g.unwrap().max as u128 == max, "the range is not the annotated one");
            vs::cover("range");
        }
        Err(_) => { vs::check(!good, "a valid range is rejected"); vs::cover("rejected") }
    }
}
#[no_mangle] pub extern "C" fn prop_c05_digits() {
    warm();
    let (a, b) = (pick("min digits", &[1, 2, 3, 9, 10, 11]), pick("max digits", &[1, 2, 3, 9, 10, 11]));
    let ((s, v), (t, w)) = (bound(a), bound(b));
    let r = ranged(&format!("/// The range of component `c` is `[{}, {}]`.\n", s, t), "Weight::zero()");
    let good = match (v, w) { (Some(v), Some(w)) => v <= w, _ => false };
    match r {
        Ok(x) => {
            vs::check(good, "a range that is empty or too large is accepted");
            let g = x[0].comp_ranges.as_ref().unwrap().get("c").unwrap();
            vs::check(Some(g.min) == v && Some(g.max) == w, "the range is not the annotated one");
            vs::cover("range");
        }
        Err(_) => { vs::check(!good, "a valid range is rejected"); vs::cover("rejected") }
    }
}
/// A decimal number of `n` digits and its value, None beyond 32 bits (split like `decimal`).
fn bound(n: usize) -> (String, Option<u32>) {
    const MAX: &[u8] = b"4294967295";
    let (at, more) = if n < 10 { (99, false) } else { (vs::choose("differs", 11), vs::choose("more", 2) == 1) };
    let (mut s, mut v) = (String::new(), 0u32);
    for i in 0..n {
        let first = if i == 0 { b'1' } else { b'0' };
        let d = if n < 10 || i > at || i == 10 { vs::u8s("d", first, b'9') } else if i < at { MAX[i] } else {
            vs::assume(if more { MAX[i] < b'9' } else { MAX[i] > first });
            if more { vs::u8s("d", MAX[i] + 1, b'9') } else { vs::u8s("d", first, MAX[i] - 1) }
        };
        unsafe { s.as_mut_vec() }.push(d);
        v = v.wrapping_mul(10).wrapping_add((d as u32).wrapping_sub(48));
    }
    (s, if n < 10 || n == 10 && (!more || at == 10) { Some(v) } else { None })
}
/// Underscores, leading zeros, spacing, wording, names.
#[no_mangle] pub extern "C" fn prop_c05_form() {
    warm();
    let num = |tag: &str| { let (mut s, mut v) = (String::new(), 0u128); for i in 0..3 { let d = vs::u8s("d", b'0', b'9'); unsafe { s.as_mut_vec() }.push(d); v = v * 10 + (d - b'0') as u128; if i < 2 && vs::choose(tag, 2) == 1 { s.push('_') } } (s, v) };
    let ((s, v), (t, w)) = (num("group min"), num("group max"));
    let name = pick("name", &["c", "_c", "my_comp", "n1", "Z"]);
    let text = match vs::choose("wording", 6) {
        0 => format!("/// The range of component `{}` is `[{}, {}]`.\n", name, s, t),
        1 => format!("/// The range of component `{}` is `[{},{}]`.\n", name, s, t),
        2 => format!("///The range of component `{}` is `[{},   {}]`\n", name, s, t),
        3 => format!("/** The range of component `{}` is `[{}, {}]`. */", name, s, t),
        4 => format!("#[doc = \"The range of component `{}` is `[{}, {}]`.\"]", name, s, t),
        _ => format!("#[inline]\n/// Storage: `System::Account` (r:1 w:1)\n/// The range of component `{}` is `[{}, {}]`.\n/// Proof: `c` (`max_values`: None)\n", name, s, t),
    };
    annotated(ranged(&text, "Weight::zero()"), &name.replace('_', ""), v, w);
}
/// What is not an annotation neither adds nor changes a range.
#[no_mangle] pub extern "C" fn prop_c05_other() {
    warm();
    let ((s, v), (t, w)) = (lit(1), lit(2));
    const OTHER: [&str; 12] = ["// The range of component `c` is `[7, 8]`.\n", "/* The range of component `c` is `[7, 8]`. */", "#[inline(always)]", "#[note = \"The range of component `c` is `[7, 8]`.\"]", "#[cfg(feature = \"`c` is `[7, 8]`\")]",
        "/// The range of component `c` is unknown.\n", "/// Storage: `[7, 8]`\n", "/// `c`\n/// `[7, 8]`\n", "/// The range of component `c` is `[7, x]`.\n", "/// The range of component `c` is [7, 8].\n", "/// The range of component c is `[7, 8]`.\n", ""];
    let o = pick("other", &OTHER);
    let line = format!("/// The range of component `c` is `[{}, {}]`.\n", s, t);
    match vs::choose("order", 3) {
        0 => annotated(ranged(&format!("{}{}", o, line), "Weight::zero()"), "c", v, w),
        1 => annotated(ranged(&format!("{}{}", line, o), "Weight::zero()"), "c", v, w),
        _ => match ranged(o, "Weight::zero()") { Ok(x) => vs::check(x[0].comp_ranges.is_none(), "a range without an annotation"), Err(_) => vs::check(false, "a function without ranges is rejected") },
    }
}
/// Each function has its own ranges, in any number, and they are used in the evaluation.
#[no_mangle] pub extern "C" fn prop_c05_functions() {
    warm();
    let n = 1 + vs::choose("functions", 3);
    let mut src = String::new();
    let mut want: Vec<Vec<(&str, u128, u128)>> = vec![];
    for i in 0..n {
        let mut rs = vec![];
        for c in ["a", "b"] {
            if vs::choose("has range", 2) == 1 {
                let ((s, v), (t, w)) = (lit(1), lit(2));
                src.push_str(&format!("/// The range of component `{}` is `[{}, {}]`.\n", c, s, t));
                rs.push((c, v, w));
            }
        }
        src.push_str(&format!("fn f{}(a: u32, b: u32) -> Weight {{ Weight::from_parts(10, 0).saturating_add(Weight::from_parts(1000, 0).saturating_mul(a.into())).saturating_add(Weight::from_parts(1000000, 0).saturating_mul(b.into())) }}\n", i));
        want.push(rs);
    }
    let r = parse(&src);
    vs::check(r.is_ok(), "the file is rejected");
    let got = r.unwrap();
    vs::check(got.len() == n, "wrong number of functions");
    for i in 0..n {
        let g = got[i].comp_ranges.clone().unwrap_or_default();
        vs::check(g.len() == want[i].len(), "wrong number of ranges");
        for (c, v, w) in &want[i] { match g.get(*c) { Some(x) => vs::check(x.min as u128 == *v && x.max as u128 == *w, "the range belongs to another function or component"), None => vs::check(false, "a range is missing") } }
    }
    let i = n - 1;
    for m in [CompareMethod::Base, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic] {
        let exact = m == CompareMethod::ExactAsymptotic;
        let rows = compare_files(vec![], vec![got[i].clone()], &CompareParams { method: m, unit: Dimension::Time, ignore_errors: false, git_pull: false, git_force: false, offline: true }, &FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None }).unwrap();
        let at = |c: &str| want[i].iter().find(|x| x.0 == c).map(|x| if m == CompareMethod::Base { x.1 } else { x.2 });
        match rows[0].term() {
            Some(t) => {
                vs::check(!exact || want[i].len() == 2, "an exact method evaluates a component without range");
                let d = if m == CompareMethod::Base { 0 } else { 100 };
                vs::check(t.new_v == Some(10 + 1000 * at("a").unwrap_or(d) + 1_000_000 * at("b").unwrap_or(d)), "a component is not evaluated at its annotated bound");
                vs::cover("evaluated");
            }
            None => vs::check(exact && want[i].len() < 2, "a component with range is not evaluated"),
        }
    }
}

// ---- C04
/// Bodies and signatures of functions that are no weight functions.
const BAD: [&str; 16] = [
    "fn NAME() -> u32 { Weight::zero() }", "fn NAME() { Weight::zero() }", "fn NAME() -> (Weight, u32) { Weight::zero() }", "fn NAME() -> Weight { }", "fn NAME() -> Weight { let x = 1; Weight::from_parts(1, 2) }",
    "fn NAME() -> Weight { Weight::from_parts(1, 2).saturating_sub(Weight::zero()) }", "fn NAME() -> Weight { Weight::from_parts(1) }", "fn NAME() -> Weight { Weight::from_parts(1, 2, 3) }", "fn NAME() -> Weight { 1 + 2 }", "fn NAME() -> Weight { weight!(1) }",
    "fn NAME() -> Weight { T::Other::get().reads(1) }", "fn NAME() -> Weight { T::DbWeight::get().reads(1.5) }", "fn NAME() -> Weight { if x { Weight::zero() } else { Weight::zero() } }", "fn NAME() -> &Weight { Weight::zero() }", "fn NAME() -> Weight { Weight::from_parts(1, 2); Weight::zero() }", "fn NAME() -> Weights { Weight::zero() }",
];
/// A function of an implementation: source, name and weight, or no weight if it cannot be understood.
struct F { src: String, name: String, want: Option<(u128, u128)> }
fn name() -> String { let mut s = String::from("g"); unsafe { s.as_mut_vec() }.push(vs::u8s("letter", b'a', b'z')); unsafe { s.as_mut_vec() }.push(vs::u8s("digit", b'0', b'9')); s }
fn good(i: usize) -> F {
    let n = name();
    let (a, b) = (lit(2), lit(1));
    F { src: match i & 1 { 0 => format!("fn {}() -> Weight {{ Weight::from_parts({}, {}) }}", n, a.0, b.0), _ => format!("/// text\nfn {}(a: u32, _b: u32, ) -> frame_support::weights::Weight {{\n// comment\nWeight::from_parts({}, {});\n}}", n, a.0, b.0) }, name: n, want: Some((a.1, b.1)) }
}
fn bad(i: usize) -> F { F { src: BAD[i].replace("NAME", "bad"), name: "bad".into(), want: None } }
/// Heads of implementations, the first four being weight implementations.
const HEADS: [&str; 10] = ["impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T>", "impl WeightInfo for ()", "impl<T: frame_system::Config> pallet_x::WeightInfo for WeightInfo<T>", "impl SubstrateWeight",
    "impl<T> WeightInfo for Other<T>", "impl WeightInfo for (u8,)", "impl<T> WeightInfo for weights::SubstrateWeight<T>", "impl WeightInfo for &()", "impl WeightInfo for ::SubstrateWeight", "impl WeightInfo for [(); 1]"];
const ITEMS: [&str; 8] = ["", "use foo::Bar;", "pub struct SubstrateWeight<T>(PhantomData<T>);", "pub trait WeightInfo { fn ga0() -> Weight; fn gb0() -> Weight { Weight::zero() } }", "fn ga0() -> Weight { Weight::from_parts(1, 2) }", "const A: Weight = 1;", "mod weights { impl WeightInfo for () { fn ga0() -> Weight { Weight::zero() } } }", "parameter_types! { const A: u32 = 1; }"];
/// Implementations in the order of the file, with the expected content of the first that can be read.
fn whole(impls: &[(usize, Vec<F>)], items: &str) {
    let mut src = String::from(items);
    for (h, fs) in impls { src.push_str(HEADS[*h]); src.push_str(" {\n"); for f in fs { src.push_str(&f.src); src.push('\n') } src.push_str("}\n") ; src.push_str(items) }
    let want = impls.iter().find(|(h, fs)| *h < 4 && fs.len() > 0 && fs.iter().all(|f| f.want.is_some()));
    match (pallet::parse_content("dir/my_pallet.rs".into(), src), want) {
        (Ok(g), Some((_, w))) => {
            vs::check(g.len() == w.len(), "wrong number of functions");
            for (g, w) in g.iter().zip(w) {
                let at = |d| g.term.simplify(d).unwrap().eval(&SimpleScope::empty());
                vs::check(g.name.as_bytes() == w.name.as_bytes() && g.pallet == "dir/my_pallet.rs", "wrong name or order");
                vs::check(at(Dimension::Time) == Ok(w.want.unwrap().0) && at(Dimension::Proof) == Ok(w.want.unwrap().1), "the weight of another function");
                vs::check(g.comp_ranges.is_none(), "a range from nowhere");
            }
            vs::cover("read");
        }
        (Ok(_), None) => vs::check(false, "a file with a function that cannot be understood is accepted"),
        (Err(_), Some(_)) => vs::check(false, "a readable weight file is rejected"),
        (Err(_), None) => vs::cover("rejected"),
    }
}
/// One implementation: any number of functions, at most one of which cannot be understood.
#[no_mangle] pub extern "C" fn prop_c04_one() {
    warm();
    let n = vs::choose("functions", 5);
    let at = vs::choose("bad at", n + 1);
    let which = if at < n { vs::choose("bad", BAD.len()) } else { 0 };
    let fs = (0..n).map(|i| if i == at { bad(which) } else { good(i) }).collect();
    whole(&[(vs::choose("head", HEADS.len()), fs)], "")
}
/// Several implementations and other items.
#[no_mangle] pub extern "C" fn prop_c04_several() {
    warm();
    let n = 1 + vs::choose("impls", 3);
    let impls: Vec<(usize, Vec<F>)> = (0..n).map(|_| {
        let h = vs::choose("head", if n < 3 { HEADS.len() } else { 5 });
        (h, match vs::choose("content", 4) { 0 => vec![], 1 => vec![good(0), good(1)], 2 => vec![good(1), bad(0)], _ => vec![bad(5), good(0)] })
    }).collect();
    whole(&impls, if n < 3 { pick("items", &ITEMS) } else { "" })
}
/// What stands between the functions of an implementation does not matter.
#[no_mangle] pub extern "C" fn prop_c04_between() {
    warm();
    let other = pick("other", &["const X: u32 = 1;", "type Y = u32;", "// fn bad() {}\n", "/* fn bad() -> Weight { 1 } */", "mac! { }"]);
    let mut fs = vec![good(0), good(1), good(0)];
    let k = vs::choose("where", 3);
    fs[k].src = if vs::choose("before", 2) == 1 { format!("{}\n{}", other, fs[k].src) } else { format!("{}\n{}", fs[k].src, other) };
    whole(&[(vs::choose("head", 4), fs)], "")
}

// ---- C06
/// An expression of a constant: source, value.
fn constant(k: u128, form: usize) -> (String, u128) {
    let ((a, x), (b, y)) = (lit(2), lit(1));
    match form {
        0 => (a, x),
        1 => (format!("{} * K", a), x * k),
        2 => (format!("K * {}", a), x * k),
        3 => (format!("{} * constants::K", a), x * k),
        4 => (format!("{} + {} * K", a, b), x + y * k),
        5 => (format!("{} * K + {}", a, b), x * k + y),
        6 => (format!("{} + K + {}", a, b), x + k + y),
        7 => (format!("{} * {} * K", a, b), x * y * k),
        8 => (format!("{}_u64 * {} + K * {}", a, b, b), x * y + k * y),
        _ => ("K".into(), k),
    }
}
const FORMS: usize = 10;
fn scope(k: u128) -> SimpleScope { SimpleScope::empty().with_var("K", sca(k)).with_var("constants::K", sca(k)).with_var("constants :: K", sca(k)) }
fn place_macro(k: usize, m: &str) -> String {
    match k {
        0 => format!("parameter_types! {{ {} }}", m),
        1 => format!("pub mod constants {{ use a::b; parameter_types! {{ {} }} #[cfg(test)] mod test_db_weights {{ }} }}", m),
        2 => format!("//! text\nuse x::y; frame_support::parameter_types! {{\n/// text\n{} }}", m),
        _ => format!("pub mod constants {{ use frame_support::parameter_types; const A: u32 = 1; parameter_types! {{ /* a */ {} }} }} fn f() {{ }}", m),
    }
}
#[no_mangle] pub extern "C" fn prop_c06_db() {
    let k = vs::u128s("K", 0, 1 << 40);
    let (i, j) = match vs::choose("varied", 2) { 0 => (vs::choose("form", FORMS), 1), _ => (0, vs::choose("form", FORMS)) };
    let (r, w) = (constant(k, i), constant(k, j));
    let rocks = vs::choose("db", 2) == 0;
    let fields = if vs::choose("order", 2) == 0 { format!("read: {}, write: {},", r.0, w.0) } else { format!("write: {}, read: {}", w.0, r.0) };
    let text = place_macro(vs::choose("place", 4), &format!("pub const {}: RuntimeDbWeight = RuntimeDbWeight {{ {} }};", if rocks { "RocksDbWeight" } else { "ParityDbWeight" }, fields));
    match storage::parse_content(text) {
        Ok(x) => {
            vs::check(x.db == if rocks { storage::Db::Rocks } else { storage::Db::Parity }, "labelled as another database");
            vs::check(x.weights.read.eval(&scope(k)) == Ok(r.1), "wrong cost of a read");
            vs::check(x.weights.write.eval(&scope(k)) == Ok(w.1), "wrong cost of a write");
            vs::cover("read");
        }
        Err(_) => vs::check(false, "a database weight file is rejected"),
    }
}
const NO_DB: [&str; 18] = ["pub const OtherDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 };", "pub const RocksDbWeight: DbWeight = RuntimeDbWeight { read: 1, write: 2 };", "pub const RocksDbWeight: RuntimeDbWeight = DbWeight { read: 1, write: 2 };",
    "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { write: 1 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2, other: 3 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, read: 2 };",
    "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, writes: 2 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 3 - 1, write: 2 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 4, write: 4 / 2 };", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1 << 2, write: 2 };",
    "pub const RocksDbWeight: RuntimeDbWeight = 5;", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight::new(1, 2);", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: f(1), write: 2 };", "pub const rocksdbweight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 };", "pub const BlockExecutionWeight: Weight = 5 * K;", "pub static RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 };", ""];
#[no_mangle] pub extern "C" fn prop_c06_no_db() {
    let text = place_macro(vs::choose("place", 4), pick("wrong", &NO_DB));
    vs::check(storage::parse_content(text).is_err(), "an unexpected database weight file is accepted");
    let (read, write) = ("pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 };", "pub const BlockExecutionWeight: Weight = 5 * K;");
    let elsewhere = [format!("mod other {{ parameter_types! {{ {} }} }}", read), format!("params! {{ {} }}", read), read.to_string(), format!("parameter_types! {{ {} {} }}", read, write)];
    vs::check(storage::parse_content(elsewhere[vs::choose("elsewhere", 4)].clone()).is_err(), "a constant in an unexpected place is read");
}
/// Overhead weights: source, time, proof.
fn overhead_expr(k: u128) -> (String, u128, u128) {
    let ((a, x), (b, y)) = (lit(2), lit(1));
    match vs::choose("form", 11) {
        0 => (format!("{} * K", a), x * k, 0),
        1 => (format!("K * {}", a), x * k, 0),
        2 => (format!("{} + {}", a, b), x + y, 0),
        3 => (format!("{} * constants::K", a), x * k, 0),
        4 => (format!("({} as Weight) * K", a), x * k, 0),
        5 => (format!("Weight::from_parts({}, {})", a, b), x, y),
        6 => (format!("Weight::from_parts(K.saturating_mul({}), {})", a, b), x * k, y),
        7 => (format!("Weight::from_ref_time({} as u64)", a), x, 0),
        8 => (format!("Weight::from_ref_time(K.saturating_mul({})).saturating_add(Weight::from_proof_size({}))", a, b), x * k, y),
        9 => (format!("Weight::from_ref_time(constants::K.saturating_mul({}))", a), x * k, 0),
        _ => ("Weight::zero()".into(), 0, 0),
    }
}
#[no_mangle] pub extern "C" fn prop_c06_overhead() {
    let k = vs::u128s("K", 0, 1 << 40);
    let (e, t, p) = overhead_expr(k);
    let block = vs::choose("which", 2) == 0;
    let text = place_macro(vs::choose("place", 4), &format!("pub const {}: Weight = {};", if block { "BlockExecutionWeight" } else { "ExtrinsicBaseWeight" }, e));
    match overhead::parse_content(text) {
        Ok(w) => {
            let term = match w { overhead::Weight::BlockExecution(t) => { vs::check(block, "labelled as block execution"); t } overhead::Weight::ExtrinsicBase(t) => { vs::check(!block, "labelled as extrinsic base"); t } };
            vs::check(term.simplify(Dimension::Time).unwrap().eval(&scope(k)) == Ok(t), "wrong time");
            vs::check(term.simplify(Dimension::Proof).unwrap().eval(&scope(k)) == Ok(p), "wrong proof size");
            vs::cover("read");
        }
        Err(_) => vs::check(false, "an overhead weight file is rejected"),
    }
}
const NO_OVERHEAD: [&str; 12] = ["pub const OtherWeight: Weight = 5 * K;", "pub const BlockExecutionWeight: u64 = 5 * K;", "pub const BlockExecutionWeight: Weight = 5 - K;", "pub const ExtrinsicBaseWeight: Weight = 5 / K;", "pub const ExtrinsicBaseWeight: Weight = \"5\";", "pub const ExtrinsicBaseWeight: Weight = Weight { a: 1 };",
    "pub const blockexecutionweight: Weight = 5 * K;", "pub const BlockExecutionWeights: Weight = 5 * K;", "pub const BlockExecutionWeight: Weight = 5 * 1.5;", "pub const ExtrinsicBaseWeight: Weight = Weight::from_parts(1);", "pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 };", ""];
#[no_mangle] pub extern "C" fn prop_c06_no_overhead() {
    let text = place_macro(vs::choose("place", 4), pick("wrong", &NO_OVERHEAD));
    vs::check(overhead::parse_content(text).is_err(), "an unexpected overhead weight file is accepted");
}

// ---- C03
/// Parses in all three ways; the process must survive.
fn survive(text: &str) {
    let a = pallet::parse_content("p.rs".into(), text.to_string()).is_ok();
    let b = storage::parse_content(text.to_string()).is_ok();
    let c = overhead::parse_content(text.to_string()).is_ok();
    vs::cover(if a || b || c { "accepted" } else { "rejected" });
}
const EXPRS: [&str; 76] = ["[1, 2]", "[1; 2]", "a = b", "a += b", "async { 1 }", "a.await", "1 + 2", "1 - 2", "1 << 2", "a && b", "1 == 2", "{ 1 }", "'a: { 1 }", "break", "break 'a 1", "f(1)", "f()", "f(1, 2, 3)", "1 as Weight", "1 as u64 as u128", "|x| x", "move |x: u32| -> u32 { x }", "const { 1 }", "continue", "a.b", "a.0", "a.0.1",
    "for x in y { }", "if a { 1 } else { 2 }", "if let A = b { }", "a[1]", "_", "loop { }", "m!(1)", "m![]", "m! { a b c }", "match a { _ => 1 }", "match a { }", "a.b()", "a.b::<u32>(1)", "a.reads(1)", "a.saturating_add()", "a.saturating_add(1, 2)", "a.saturating_mul(b)", "a.into()", "a.into(1)", "(1)", "((a))", "a::b::<c>::d", "<T as U>::f", "<T as U>::from_parts(1, 2)", "::a::b",
    "1..2", "..", "..=1", "&a", "&mut a", "return", "return 1", "S { a: 1 }", "S { a: 1, ..b }", "S { 0: 1 }", "a?", "()", "(1,)", "(1, 2)", "-1", "!a", "*a", "unsafe { 1 }", "while a { }", "yield 1", "1.5e3", "b\"x\"", "'a'", "r#fn"];
const PLACED: [&str; 22] = ["@", "@;", "let x = @;", "let A(b) = @ else { return };", "Weight::from_parts(@, 1)", "Weight::from_parts(1, @)", "Weight::from_parts(@)", "Weight::from_ref_time(@)", "Weight::zero(@)", "T::DbWeight::get().reads(@)", "T::DbWeight::get(@).writes(1)", "(@).reads(1)", "(@)().writes(1)", "(@).saturating_add(Weight::zero())", "Weight::zero().saturating_add(@)", "Weight::zero().saturating_mul(@)", "(@)(1)", "(@) as Weight", "x.ref_time(@)", "(@).ref_time()", "(@).into()", "2.saturating_mul(@)"];
#[no_mangle] pub extern "C" fn prop_c03_expressions() {
    warm();
    let e = pick("expression", &EXPRS);
    let k = vs::choose("place", PLACED.len() + 7);
    let text = match k.checked_sub(PLACED.len()) {
        None => file(&format!("fn f(n: u32) -> Weight {{ {} }}", PLACED[k].replace('@', e))),
        Some(0) => format!("parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {}, write: 2 }}; }}", e),
        Some(1) => format!("parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ write: 2 * ({}), read: {} + 1 }}; }}", e, e),
        Some(2) => format!("parameter_types! {{ pub const ParityDbWeight: RuntimeDbWeight = {}; }}", e),
        Some(3) => format!("parameter_types! {{ pub const BlockExecutionWeight: Weight = {}; }}", e),
        Some(4) => format!("parameter_types! {{ pub const BlockExecutionWeight: Weight = ({}) * 2; }}", e),
        Some(5) => format!("parameter_types! {{ pub const ExtrinsicBaseWeight: Weight = 2 + {}; }}", e),
        _ => format!("parameter_types! {{ {} }}", e),
    };
    survive(&text);
}
const TYPES: [&str; 24] = ["()", "(u8, u8)", "[u8; 3]", "[u8]", "fn(u8) -> u8", "impl A + B", "_", "m!(x)", "!", "(Weight)", "a::Weight", "::Weight", "<T as U>::Weight", "*const Weight", "&'a mut Weight", "dyn Weight", "Weight<T>", "Weight<T, 3>", "Fn(u8) -> Weight", "SubstrateWeight<T>", "WeightInfo", "Self", "crate::Weight", "for<'a> fn(&'a u8)"];
const ITEM_KINDS: [&str; 40] = ["const A: u32 = 1;", "const _: () = ();", "enum A { B(u32), C { d: u8 }, E = 3 }", "extern crate a as b;", "fn f() { }", "extern \"C\" { fn f(); }", "impl A { }", "impl<T> A for T where T: B { fn f(&self) -> Weight { Weight::zero() } }", "unsafe impl A for () { }", "impl !A for () { }", "macro_rules! m { () => { } }", "m! { a }", "a::m!(b);", "::m! { }", "mod a;", "mod constants;", "mod constants { }", "mod constants { const A: u32 = 1; }", "mod constants { mod constants { parameter_types! { } } }", "static A: u32 = 1;", "struct A;", "struct A(u8);", "trait A { }", "trait A = B;", "type A = u8;", "union A { b: u8 }", "use a::{b, c as d, e::*};", "parameter_types! { }", "parameter_types!();", "parameter_types![1];", "x::parameter_types! { pub const A: }", "parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { }; }", "parameter_types! { pub const RocksDbWeight: (u8) = 1; }", "parameter_types! { pub const BlockExecutionWeight: [Weight; 1] = 1 * 2; }", "parameter_types! { const A<T>: u8 = 1; }", "#![allow(x)]", "//! text", "#[a(b = \"c\")] struct B;", "macro m($a:expr) { }", "impl A for () { const B: u8 = 1; type C = u8; m! { } fn f(); }"];
/// Types of implementations and results, attributes, arguments, kinds of items.
#[no_mangle] pub extern "C" fn prop_c03_items() {
    warm();
    const ATTRS: [&str; 14] = ["#[doc]", "#[doc()]", "#[doc = 1]", "#[doc = \"`a` `[1, 2]`\"]", "#[doc = include_str!(\"x\")]", "#[a = \"`c` `[2, 1]`\"]", "#[doc = r#\"`c` is `[99999999999, 1]`\"#]", "/// `c` is `[_, _]`\n", "/// `c` is `[__, 1]`\n", "/// `\u{e9}` is `[\u{663}, 4]`\n", "#[cfg_attr(a, doc = \"`c` is `[1, 2]`\")]", "#[::doc = \"`c` is `[1, 2]`\"]", "#[doc::x = 'c']", "#[doc = concat!(\"a\", \"b\")]"];
    const ARGS: [&str; 10] = ["", "self", "&mut self", "self: Box<Self>", "_: u32", "(a, b): (u8, u8)", "A { b, .. }: A", "mut a: u32", "a: impl B", "#[x] a: u8, ..."];
    const SIGS: [&str; 10] = ["fn f() -> Weight;", "pub(crate) const fn f() -> Weight { Weight::zero() }", "async unsafe extern \"C\" fn f<'a, T: B, const N: u8>() -> Weight where T: C { Weight::zero() }", "fn f() -> Weight { #![a] Weight::zero() }", "default fn f() -> Weight { Weight::zero() }", "fn f() -> Weight { fn g() { } }", "fn f() -> Weight { const A: u8 = 1; }", "fn f() -> Weight { ; }", "fn f() -> Weight { m!{} }", "fn r#fn() -> Weight { Weight::zero() }"];
    let text = match vs::choose("what", 6) {
        0 => format!("impl WeightInfo for {} {{ fn f() -> Weight {{ Weight::zero() }} }}", pick("type", &TYPES)),
        1 => file(&format!("fn f() -> {} {{ Weight::zero() }}", pick("type", &TYPES))),
        2 => pick("item", &ITEM_KINDS).to_string(),
        3 => file(&format!("{} fn f() -> Weight {{ Weight::zero() }}", pick("attribute", &ATTRS))),
        4 => file(&format!("fn f({}) -> Weight {{ Weight::zero() }}", pick("argument", &ARGS))),
        _ => file(pick("signature", &SIGS)),
    };
    survive(&text);
}
const TEMPLATES: [&str; 4] = [
    "impl WeightInfo for () {\n/// The range of component `c` is `[0, 9]`.\nfn f(c: u32) -> Weight { Weight::from_parts(1_0, 2).saturating_add(T::DbWeight::get().reads(3 as u64)) } }",
    "mod constants { parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 2 * K, write: 3 + K }; } }",
    "parameter_types! { pub const BlockExecutionWeight: Weight = Weight::from_parts(K.saturating_mul(9), 0); }",
    "parameter_types! { pub const ExtrinsicBaseWeight: Weight = 5_6 * c::K; }",
];
/// One byte of a weight file replaced by any ASCII character.
fn byte(n: usize, k: usize) {
    warm();
    let mut t = TEMPLATES[k].as_bytes().to_vec();
    let at = vs::choose("at", n);
    if at < t.len() { t[at] = vs::u8s("byte", 0, 0x7f) }
    survive(&String::from_utf8(t).unwrap());
}
#[no_mangle] pub extern "C" fn prop_c03_byte_pallet() { byte(TEMPLATES[0].len(), 0) }
#[no_mangle] pub extern "C" fn prop_c03_byte_db() { byte(TEMPLATES[1].len(), 1) }
#[no_mangle] pub extern "C" fn prop_c03_byte_overhead() { let k = 2 + vs::choose("file", 2); byte(TEMPLATES[k].len(), k) }
/// A weight file that ends anywhere, lacks a piece or contains characters of several bytes.
#[no_mangle] pub extern "C" fn prop_c03_pieces() {
    warm();
    let k = vs::choose("file", 4);
    let t = TEMPLATES[k];
    let at = vs::choose("at", t.len() + 1);
    let text = match vs::choose("what", 4) {
        0 => t[..at].to_string(),
        1 => format!("{}{}", &t[..at], &t[t.len().min(at + 1 + vs::choose("gap", 3) * 3)..]),
        2 => format!("{}{}{}", &t[..at], pick("character", &["\u{e9}", "\u{feff}", "\u{202e}", "\u{1f600}", "\u{2028}", "\u{663}", "\\u{1}", "r#\"", "b'", "/*", "\r"]), &t[at..]),
        _ => format!("{}{}", &t[at..], &t[..at]),
    };
    survive(&text);
}
