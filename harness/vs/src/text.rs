//! Texts in which symbolic numbers stand as tokens.
/// Reads a token `~NNNNN<spec>~`: id, spec, length.
fn tok(s: &[u8]) -> Option<(u64, &[u8], usize)> {
    if s.len() < 7 || s[0] != b'~' { return None }
    let mut id = 0u64;
    for k in 1..6 { if !s[k].is_ascii_digit() { return None } id = id * 10 + (s[k] - b'0') as u64 }
    let e = s[6..].iter().position(|c| *c == b'~')?;
    Some((id, &s[6..6 + e], 7 + e))
}
/// Whether two texts are the same, whatever the values of the numbers in them.
pub fn same(a: &str, b: &str) -> bool {
    let (mut a, mut b) = (a.as_bytes(), b.as_bytes());
    let mut eq = true;
    loop {
        if a.is_empty() || b.is_empty() { return eq && a.is_empty() && b.is_empty() }
        match (tok(a), tok(b)) {
            (Some((i, s, n)), Some((j, t, m))) => {
                if s != t { return false }
                let (v, w) = (crate::token_value(i), crate::token_value(j));
                eq &= v == w;
                a = &a[n..];
                b = &b[m..];
            }
            (None, None) => { eq &= a[0] == b[0]; a = &a[1..]; b = &b[1..] }
            _ => return false,
        }
    }
}
