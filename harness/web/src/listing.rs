//! C35: the branches and tags the server offers, and the organization of a repository.
use crate::server::{encoded, get, start};
use std::path::Path;
use vs::{html::{attr, decoded, read, Node}, text::same, world::{self, Outcome}};

struct Ref { name: String, tag: bool, hash: &'static str, peeled: bool }
#[derive(Default)]
struct Git { refs: Vec<Ref>, log: Vec<(Vec<String>, String)>, breaks: usize, url: Vec<u8> }
static mut G: Option<Git> = None;
#[allow(static_mut_refs)]
fn g() -> &'static mut Git { unsafe { G.get_or_insert_with(Git::default) } }
const HASHES: [&str; 3] = ["0123456789abcdef0123456789abcdef01234567", "89abcdef0123456789abcdef0123456789abcdef", "fedcba9876543210fedcba9876543210fedcba98"];
/// 0: works, 1: fails, 2: is killed, 3: cannot be started
fn outcome(out: Vec<u8>) -> Outcome {
    match g().breaks { 0 => Outcome::Printed(0, out), 1 => Outcome::Exit(128 << 8), 2 => Outcome::Exit(9), _ => Outcome::NotStarted }
}
fn git(args: &[String], dir: &str) -> Outcome {
    let a: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
    vs::check(a[0] == "git", "another program");
    g().log.push((args[1..].to_vec(), dir.to_string()));
    let has = |x: &str| a.iter().any(|a| *a == x);
    match a[1] {
        "fetch" => if unsafe { FETCH } { outcome(vec![]) } else { Outcome::Printed(0, vec![]) },
        "ls-remote" => {
            if unsafe { FETCH } { vs::check(false, "a listing after a failure") }
            let (heads, tags) = (has("--heads") || has("-h") || has("--branches") || has("-b"), has("--tags") || has("-t"));
            let mut out = vec![];
            if !heads && !tags && !has("--refs") { out.extend(format!("{}\tHEAD\n", HASHES[0]).into_bytes()) }
            for r in &g().refs {
                if (heads || tags) && !(if r.tag { tags } else { heads }) { continue }
                if r.peeled && has("--refs") { continue }
                out.extend(r.hash.bytes());
                out.extend(if r.tag { b"\trefs/tags/".iter() } else { b"\trefs/heads/".iter() });
                out.extend(r.name.bytes());
                if r.peeled { out.extend(b"^{}") }
                out.push(b'\n');
            }
            outcome(out)
        }
        "remote" => { vs::check(a[2..] == ["get-url", "origin"], "another question"); let u = g().url.clone(); outcome(u) }
        _ => { vs::check(false, "another command"); Outcome::NotStarted }
    }
}
static mut FETCH: bool = false;
/// Reads `{"branch":[["name","hash"],...]}`.
struct Json<'a>(&'a [u8], usize);
impl<'a> Json<'a> {
    fn ws(&mut self) { while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\n') { self.1 += 1 } }
    fn is(&mut self, c: u8) -> bool { self.ws(); if self.1 < self.0.len() && self.0[self.1] == c { self.1 += 1; true } else { false } }
    fn need(&mut self, c: u8) { let ok = self.is(c); vs::check(ok, "an answer that cannot be read") }
    fn string(&mut self) -> String {
        self.need(b'"');
        let mut r = vec![];
        loop {
            vs::check(self.1 < self.0.len(), "an answer that cannot be read");
            let c = self.0[self.1];
            self.1 += 1;
            if c == b'"' { return unsafe { String::from_utf8_unchecked(r) } }
            if c == b'\\' { r.push(self.0[self.1]); self.1 += 1 } else { r.push(c) }
        }
    }
    fn list(&mut self) -> Vec<(String, String)> {
        let mut r = vec![];
        self.need(b'{');
        let k = self.string();
        vs::check(k == "branch", "an answer that cannot be read");
        self.need(b':');
        self.need(b'[');
        while !self.is(b']') {
            if !r.is_empty() { self.need(b',') }
            self.need(b'[');
            let n = self.string();
            self.need(b',');
            let h = self.string();
            self.need(b']');
            r.push((n, h));
        }
        self.need(b'}');
        r
    }
}
fn name(max: usize) -> String {
    match vs::choose("name", 5) {
        0 => unsafe { String::from_utf8_unchecked((0..1 + vs::choose("length", max)).map(|_| { let c = vs::u8s("char", 0x21, 0x7e); vs::assume(!b"~^:?*[\\".contains(&c)); c }).collect()) },
        1 => "é/x".into(),
        2 => "refs/heads/x".into(),
        3 => "x/refs/tags/y".into(),
        _ => "release-polkadot-v0.9.43".into(),
    }
}
fn listed(n: usize, max: usize) {
    start();
    world::init();
    world::handler(git);
    for (n, p) in [("r", "/repos/r"), ("s", "/elsewhere/s")] { world::mkdir(&format!("{}{}", world::root(), p)); crate::REPOS.insert(n.into(), crate::Repo { name: n.into(), path: format!("{}{}", world::root(), p).into(), organization: "o".into() }); }
    let second = vs::choose("repo", 2);
    for i in 0..vs::choose("refs", n + 1) {
        let tag = vs::choose("tag", 2) == 1;
        g().refs.push(Ref { name: name(max), tag, hash: HASHES[i], peeled: tag && vs::choose("peeled", 2) == 1 });
    }
    let fetch = vs::choose("fetch", 3);
    let (status, r) = get(&format!("/branches?repo={}{}", ["r", "s"][second], ["", "&fetch=false", "&fetch=true"][fetch]));
    vs::check(g().log.iter().all(|(_, d)| d == ["/repos/r", "/elsewhere/s"][second]), "another repository");
    let f: Vec<_> = g().log.iter().filter(|(a, _)| a[0] == "fetch").collect();
    vs::check(f.len() == (fetch == 2) as usize, "fetched without being asked to, or not fetched");
    if fetch == 2 { vs::check(f[0].0.iter().any(|a| a == "--all") && f[0].0.iter().any(|a| a == "--tags"), "not everything is fetched"); vs::check(g().log[0].0[0] == "fetch", "listed before fetching") }
    vs::check(status == 200, "a listing is refused");
    let l = Json(&r, 0).list();
    let want: Vec<&Ref> = g().refs.iter().filter(|r| !r.peeled && !r.name.bytes().any(|c| c == b'{')).collect();
    vs::check(l.len() == want.len(), "another number of names");
    for (l, w) in l.iter().zip(want) {
        vs::check(same(&l.0, &w.name), "another name");
        vs::check(l.1.len() >= 7 && w.hash.starts_with(&l.1), "another commit");
        vs::cover("name");
    }
    vs::cover("listed");
}
#[no_mangle] pub extern "C" fn prop_c35_listed() { listed(2, 1) }
#[no_mangle] pub extern "C" fn prop_c35_listed_long() { listed(3, 2) }
/// No listing.
#[no_mangle] pub extern "C" fn prop_c35_refused() {
    start();
    world::init();
    world::handler(git);
    world::mkdir(&format!("{}/repos/r", world::root()));
    crate::REPOS.insert("r".into(), crate::Repo { name: "r".into(), path: format!("{}/repos/r", world::root()).into(), organization: "o".into() });
    g().refs.push(Ref { name: "main".into(), tag: false, hash: HASHES[0], peeled: false });
    let how = vs::choose("how", 3);
    let query = match how {
        0 => { let c = vs::u8s("repo", 0x21, 0x7e); vs::assume(c != b'r' && c != b's' && c != b'&' && c != b'+' && c != b'%' && c != b'='); format!("repo={}", encoded(&unsafe { String::from_utf8_unchecked(vec![c]) })) }
        1 => ["", "fetch=true", "repo=r&fetch=maybe"][vs::choose("query", 3)].to_string(),
        _ => { g().breaks = 1 + vs::choose("breaks", 3); unsafe { FETCH = vs::choose("fetch", 2) == 1 } format!("repo=r&fetch={}", unsafe { FETCH }) }
    };
    let (status, r) = get(&format!("/branches?{}", query));
    vs::check(status >= 400 && !r.starts_with(b"{\"branch\""), "a failure is hidden");
    if how < 2 { vs::check(g().log.is_empty(), "something is run for a request that is refused") }
    vs::cover("refused");
}
fn origin(n: usize) {
    vs::merge(false);
    world::init();
    world::handler(git);
    world::mkdir("r");
    const P: &[u8] = b"https://github.com/";
    let mut url = P.to_vec();
    let mut sure = true;
    match vs::choose("start", 4) {
        0 => {}
        // one character differs
        1 => { let i = vs::choose("position", P.len()); let c = vs::u8s("char", 0x21, 0x7e); vs::assume(c != url[i]); url[i] = c; sure = i != 14 }
        2 => { url = b"git@github.com:".to_vec() }
        _ => { url = b"x https://github.com/".to_vec() }
    }
    let github = url == P;
    let k = vs::choose("organization", n + 1);
    let org: Vec<u8> = (0..k).map(|_| { let c = vs::u8s("org", 0x21, 0x7e); vs::assume(c != b'/'); c }).collect();
    url.extend(&org);
    let rest = vs::choose("rest", 3);
    url.extend([&b"/x.git\n"[..], b"/a/b\n", b"\n"][rest]);
    g().url = url;
    g().breaks = vs::choose("breaks", 4);
    let r = crate::git::get_origin_org(Path::new("r"));
    vs::check(g().log.len() == 1 && g().log[0].1 == "/w/r", "another repository");
    if g().breaks > 0 { vs::check(r.is_err(), "a failure is hidden"); return }
    if !sure { return }
    if github && k > 0 && rest < 2 {
        match r { Ok(o) => { vs::check(same(&o, unsafe { std::str::from_utf8_unchecked(&org) }), "another organization"); vs::cover("organization") } Err(_) => vs::check(false, "an organization is not found") }
    } else {
        vs::check(r.is_err(), "an organization of something else");
        vs::cover("none");
    }
}
#[no_mangle] pub extern "C" fn prop_c35_origin() { origin(2) }

/// The repositories a page offers.
fn offered(n: usize) {
    vs::merge(false);
    let text = |n: &str, max: usize| unsafe { String::from_utf8_unchecked((0..1 + vs::choose("length", max)).map(|_| vs::u8s(n, 0x20, 0x7e)).collect()) };
    let (mut name, mut org) = ("x".to_string(), "o".to_string());
    let k = vs::choose("repositories", 3);
    let page = vs::choose("page", 3);
    if vs::choose("text", 2) == 0 { name = text("name", n) } else { vs::assume(page == 2); org = text("org", n) }
    let all = [(name, org), ("second".to_string(), "p".to_string())];
    for (n, o) in &all[..k] { crate::REPOS.insert(n.clone(), crate::Repo { name: n.clone(), path: "/x".into(), organization: o.clone() }); }
    let (status, r) = get(["/", "/compare-commit", "/compare-mr"][page]);
    vs::check(status == 200, "no page");
    let page_ = read(&r);
    let Some(from) = page_.iter().position(|n| attr(n, "id") == Some(b"select_repo") || attr(n, "id") == Some(b"selectRepo") || matches!(n, Node::Open(t, _) if &t[..] == b"select")) else { vs::check(false, "no selection"); return };
    let to = page_[from..].iter().position(|n| matches!(n, Node::Close(t) if &t[..] == b"select")).map_or(page_.len(), |i| from + i);
    let mut options: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in from + 1..to {
        if let Node::Open(t, a) = &page_[i] { if &t[..] == b"option" {
            vs::check(a.len() == 1, "another attribute");
            let v = attr(&page_[i], "value").map(|v| decoded(v)).unwrap_or_default();
            let t = match &page_[i + 1] { Node::Text(t) => decoded(t), _ => vec![] };
            if !v.is_empty() { options.push((v, t)) }
        } }
    }
    vs::check(options.len() == k, "another number of repositories");
    for (n, o) in &all[..k] {
        let want = if page == 2 { format!("{}:{}", o, n) } else { n.clone() };
        let mut found = false;
        for (v, t) in &options { found |= v[..] == *want.as_bytes() && t[..] == *want.as_bytes() }
        vs::check(found, "a repository is not offered");
        vs::cover("offered");
    }
}
#[no_mangle] pub extern "C" fn prop_c35_offered() { offered(1) }
#[no_mangle] pub extern "C" fn prop_c35_offered_long() { offered(2) }
#[no_mangle] pub extern "C" fn prop_c35_origin_long() { origin(4) }
