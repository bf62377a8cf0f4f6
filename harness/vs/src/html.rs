//! Reads an HTML page the way a browser does.
pub enum Node { Text(Vec<u8>), Open(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>), Close(Vec<u8>) }
fn space(c: u8) -> bool { matches!(c, b' ' | b'\n' | b'\t' | b'\r' | 12) }
fn lower(c: u8) -> u8 { if c.is_ascii_uppercase() { c + 32 } else { c } }
fn at(s: &[u8], i: usize, p: &[u8]) -> bool { i + p.len() <= s.len() && (0..p.len()).all(|k| lower(s[i + k]) == p[k]) }
const REFS: [(&[u8], u8); 10] = [(b"lt;", b'<'), (b"gt;", b'>'), (b"amp;", b'&'), (b"quot;", b'"'), (b"#039;", b'\''), (b"#39;", b'\''), (b"#x27;", b'\''), (b"#x2F;", b'/'), (b"#47;", b'/'), (b"apos;", b'\'')];
/// Replaces the character references.
pub fn decoded(s: &[u8]) -> Vec<u8> {
    let (mut r, mut i) = (vec![], 0);
    'next: while i < s.len() {
        if s[i] == b'&' { for (n, c) in REFS { if i + 1 + n.len() <= s.len() && &s[i + 1..i + 1 + n.len()] == n { r.push(c); i += 1 + n.len(); continue 'next } } }
        r.push(s[i]);
        i += 1;
    }
    r
}
pub fn read(s: &[u8]) -> Vec<Node> {
    let (mut r, mut i, mut text) = (vec![], 0, vec![]);
    while i < s.len() {
        let c = s[i];
        let next = if i + 1 < s.len() { s[i + 1] } else { 0 };
        if c != b'<' || !(next == b'!' || next == b'/' || next == b'?' || next.is_ascii_alphabetic()) { text.push(c); i += 1; continue }
        if next == b'/' && !(i + 2 < s.len() && s[i + 2].is_ascii_alphabetic()) || next == b'!' || next == b'?' {
            // comment
            let long = at(s, i, b"<!--");
            i += 2;
            while i < s.len() && !(if long { at(s, i, b"-->") } else { s[i] == b'>' }) { i += 1 }
            i += if long { 3 } else { 1 };
            continue
        }
        if !text.is_empty() { r.push(Node::Text(std::mem::take(&mut text))) }
        let close = next == b'/';
        i += if close { 2 } else { 1 };
        let mut name = vec![];
        while i < s.len() && !space(s[i]) && s[i] != b'/' && s[i] != b'>' { name.push(lower(s[i])); i += 1 }
        let mut attrs = vec![];
        loop {
            while i < s.len() && (space(s[i]) || s[i] == b'/') { i += 1 }
            if i >= s.len() { break }
            if s[i] == b'>' { i += 1; break }
            let mut n = vec![];
            while i < s.len() && !space(s[i]) && s[i] != b'/' && s[i] != b'>' && (s[i] != b'=' || n.is_empty()) { n.push(lower(s[i])); i += 1 }
            while i < s.len() && space(s[i]) { i += 1 }
            let mut v = vec![];
            if i < s.len() && s[i] == b'=' {
                i += 1;
                while i < s.len() && space(s[i]) { i += 1 }
                if i < s.len() && (s[i] == b'"' || s[i] == b'\'') {
                    let q = s[i];
                    i += 1;
                    while i < s.len() && s[i] != q { v.push(s[i]); i += 1 }
                    i += 1;
                } else { while i < s.len() && !space(s[i]) && s[i] != b'>' { v.push(s[i]); i += 1 } }
            }
            attrs.push((n, v));
        }
        let raw: Option<&[u8]> = if close { None } else if name == b"script" { Some(b"</script") } else if name == b"style" { Some(b"</style") } else if name == b"title" { Some(b"</title") } else if name == b"textarea" { Some(b"</textarea") } else { None };
        r.push(if close { Node::Close(name) } else { Node::Open(name, attrs) });
        if let Some(end) = raw { let st = i; while i < s.len() && !at(s, i, end) { i += 1 } if i > st { r.push(Node::Text(s[st..i.min(s.len())].to_vec())) } }
    }
    if !text.is_empty() { r.push(Node::Text(text)) }
    r
}
/// The tags with the names of their attributes.
pub fn skeleton(n: &[Node]) -> Vec<u8> {
    let mut r = vec![];
    for x in n {
        match x {
            Node::Text(_) => (),
            Node::Open(n, a) => { r.push(b'<'); r.extend(n); for (k, _) in a { r.push(b' '); r.extend(k) } r.push(b'>') }
            Node::Close(n) => { r.push(b'<'); r.push(b'/'); r.extend(n); r.push(b'>') }
        }
    }
    r
}
pub fn attr<'a>(n: &'a Node, name: &str) -> Option<&'a [u8]> { match n { Node::Open(_, a) => a.iter().find(|(k, _)| k == name.as_bytes()).map(|(_, v)| &v[..]), _ => None } }
/// Everything the page says, with the character references replaced.
pub fn content(n: &[Node]) -> Vec<u8> {
    let mut r = vec![];
    for x in n {
        match x {
            Node::Text(t) => r.extend(decoded(t)),
            Node::Open(n, a) => { r.push(b'<'); r.extend(n); for (k, v) in a { r.push(b' '); r.extend(k); r.push(b'='); r.extend(decoded(v)) } r.push(b'>') }
            Node::Close(n) => { r.push(b'<'); r.push(b'/'); r.extend(n); r.push(b'>') }
        }
    }
    r
}
