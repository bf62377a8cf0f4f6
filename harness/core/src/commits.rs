//! C26 - C29, C31: comparing two revisions of a repository.
#![allow(static_mut_refs)]
use crate::compare::params;
use crate::util::*;
use std::path::{Path, PathBuf};
use subweight_core::parse::pallet;
use vs::world::{self, Outcome};

/// How the outcome of a git process is drawn.
#[derive(Clone, Copy, PartialEq)]
enum Luck { Good, Any }
struct Git { dir: String, log: Vec<(Vec<String>, bool)>, luck: Luck, tree: usize, refs: Vec<(String, usize)>, trees: Vec<Vec<(String, String)>>, failed: bool }
static mut G: Git = Git { dir: String::new(), log: Vec::new(), luck: Luck::Good, tree: 0, refs: Vec::new(), trees: Vec::new(), failed: false };
fn g() -> &'static mut Git { unsafe { &mut G } }
fn switch(t: usize) {
    let s = g();
    let base = format!("{}{}", world::root(), s.dir);
    world::clear(&base);
    s.tree = t;
    for (p, c) in &s.trees[t] { world::put(&format!("{}/{}", base, p), c.as_bytes()) }
}
/// The arguments without the options of git itself.
fn bare(args: &[String]) -> &[String] {
    let mut i = 0;
    while i < args.len() { match args[i].as_str() { "-c" | "-C" => i += 2, "--no-pager" => i += 1, _ => break } }
    &args[i.min(args.len())..]
}
/// What git does: options first, then a revision or, without `--`, a path.
fn effect(args: &[String]) -> bool {
    let args = bare(args);
    if args.is_empty() { return false }
    let cmd = &args[0];
    let rest: Vec<&str> = args[1..].iter().map(|s| s.as_str()).collect();
    let plain: Vec<&str> = rest.iter().copied().filter(|a| !a.starts_with('-')).collect();
    let find = |r: &str| g().refs.iter().find(|x| x.0 == r).map(|x| x.1);
    match cmd.as_str() {
        "fetch" => true,
        "checkout" | "switch" => match plain.first().and_then(|r| find(r)) {
            Some(t) => { switch(t); true }
            None => cmd == "checkout" && !rest.contains(&"--") && plain.len() == 1 && world::exists(&format!("{}{}/{}", world::root(), g().dir, plain[0])),
        },
        "reset" => match plain.first().and_then(|r| find(r)) { Some(t) if rest.contains(&"--hard") => { switch(t); true } _ => false },
        // anything else leaves the work tree alone
        _ => true,
    }
}
fn git(args: &[String], dir: &str) -> Outcome {
    vs::check(args[0] == "git", "another program is started");
    let at = args.iter().position(|a| a == "-C").map(|k| world::below(dir, &args[k + 1])).unwrap_or(dir.to_string());
    vs::check(at == g().dir, "git runs outside the repository");
    let any = g().luck == Luck::Any;
    if any && vs::boolean("not_started") { g().failed = true; g().log.push((bare(&args[1..]).to_vec(), false)); return Outcome::NotStarted }
    // any exit code, or any signal
    let status = if any { vs::u32s("status", 0, 0xffff) } else { 0 };
    if any { let sig = status & 0x7f; vs::assume(if sig == 0 { status & 0x80 == 0 } else { sig != 0x7f && status >> 8 == 0 }) }
    let ok = status == 0 && effect(&args[1..]);
    if status != 0 { g().failed = true }
    g().log.push((bare(&args[1..]).to_vec(), ok));
    Outcome::Exit(if status == 0 && !ok { 128 << 8 } else { status as i32 })
}
fn weights(v: usize) -> String { format!("impl WeightInfo for () {{ fn f() -> Weight {{ Weight::from_parts({}, 0) }} }}", v) }
/// A repository at `dir` (below the root) with a tree per revision and a first one that is checked out.
fn repo(dir: &str, refs: &[(&str, usize)], trees: Vec<Vec<(String, String)>>, luck: Luck) {
    world::init();
    let s = g();
    s.dir = dir.to_string();
    s.refs = refs.iter().map(|r| (r.0.to_string(), r.1)).collect();
    s.trees = trees;
    s.luck = luck;
    switch(0);
    world::handler(git);
}
fn numbered(n: usize) -> Vec<Vec<(String, String)>> {
    (0..n).map(|t| vec![("w/all.rs".into(), weights(1000 + t)), (format!("w/only{}.rs", t), weights(7)), ("w/note.txt".into(), "no weights".into())]).collect()
}
fn opts(force: bool, pull: bool, offline: bool, ignore: bool) -> CompareParams { let mut p = params(CompareMethod::Base, Dimension::Time); p.git_force = force; p.git_pull = pull; p.offline = offline; p.ignore_errors = ignore; p }
fn flag(n: &str) -> bool { vs::choose(n, 2) == 1 }
fn nofilter() -> FilterParams { crate::compare::nofilter() }

// ---- C26
/// The tree a sequence of git processes leaves behind for a revision, None if it cannot be relied on.
fn reached(log: &[(Vec<String>, bool)], rev: &str, force: bool) -> Option<usize> {
    let remote = format!("origin/{}", rev);
    let tree = |r: &str| g().refs.iter().find(|x| x.0 == r).map(|x| x.1);
    let mut at = None;
    for (args, ok) in log {
        let cmd = args[0].as_str();
        if cmd == "fetch" { if !ok { return None } }
        else if cmd == "checkout" || cmd == "switch" { if !ok { return None } at = if args.iter().any(|a| a == rev) { tree(rev) } else { None } }
        else if cmd == "reset" { if *ok { at = if args.iter().any(|a| *a == remote) { tree(&remote) } else if args.iter().any(|a| a == rev) { tree(rev) } else { None }; } else { at = None } }
    }
    let _ = force;
    at
}
fn outcome(old: &str, new: &str, force: bool, pull: bool, offline: bool) {
    let r = compare_commits(Path::new("r"), old, new, &opts(force, pull, offline, false), &nofilter(), "**/*.rs", usize::MAX);
    let log = &g().log;
    // the processes for the new revision begin where the old one's end
    let per: usize = pull as usize & !offline as usize;
    match r {
        Ok(diff) => {
            let cut = (0..=log.len()).find(|k| {
                let (a, b) = (&log[..*k], &log[*k..]);
                let f = |l: &[(Vec<String>, bool)]| l.iter().filter(|c| c.0[0] == "fetch").count() == per;
                f(a) && f(b) && reached(a, old, force).is_some() && reached(b, new, force).is_some()
            });
            vs::check(cut.is_some(), "a result although a git step failed");
            let cut = cut.unwrap();
            let (a, b) = (reached(&log[..cut], old, force).unwrap(), reached(&log[cut..], new, force).unwrap());
            if force {
                let has = |r: &str| g().refs.iter().any(|x| x.0 == r);
                // the remote branch is preferred
                let tried = |l: &[(Vec<String>, bool)], r: &str| l.iter().any(|c| c.0[0] == "reset" && c.0.iter().any(|a| *a == format!("origin/{}", r)));
                vs::check(tried(&log[..cut], old) && tried(&log[cut..], new), "the remote branch is not tried");
                let _ = has;
            }
            let row = |file: &str| diff.iter().find(|d| d.file == file).and_then(|d| d.term()).map(|t| (t.old_v, t.new_v));
            vs::check(row("w/all.rs") == Some((Some(1000 + a as u128), Some(1000 + b as u128))), "the rows are not those of the two revisions");
            if a != b {
                vs::check(diff.len() == 3, "not one row per file");
                vs::check(row(&format!("w/only{}.rs", a)) == Some((Some(7), None)), "a removed file is not reported so");
                vs::check(row(&format!("w/only{}.rs", b)) == Some((None, Some(7))), "an added file is not reported so");
            } else { vs::check(diff.len() == 2, "not one row per file") }
            vs::cover("compared");
        }
        Err(_) => { vs::check(g().failed, "an error although every git step works"); vs::cover("refused") }
    }
}
#[no_mangle] pub extern "C" fn prop_c26_outcomes() {
    let remotes = vs::choose("remote", 3);
    let mut refs = vec![("v1", 1), ("v2", 2)];
    if remotes != 1 { refs.push(("origin/v1", 3)) }
    if remotes == 0 { refs.push(("origin/v2", 4)) }
    repo("/w/r", &refs, numbered(5), Luck::Any);
    let (old, new) = [("v1", "v2"), ("v2", "v1"), ("v1", "v1")][vs::choose("revisions", 3)];
    outcome(old, new, flag("force"), flag("pull"), flag("offline"))
}
/// A revision that does not exist, although a file of that name does.
#[no_mangle] pub extern "C" fn prop_c26_unknown() {
    repo("/w/r", &[("v1", 1), ("v2", 2)], numbered(3), Luck::Good);
    let bad = ["w", "w/all.rs", "v3", "", ".", "origin", "w/only0.rs"][vs::choose("revision", 7)];
    let first = flag("first");
    let (old, new) = if first { (bad, "v2") } else { ("v1", bad) };
    let r = compare_commits(Path::new("r"), old, new, &opts(flag("force"), flag("pull"), flag("offline"), flag("ignore")), &nofilter(), "**/*.rs", usize::MAX);
    vs::check(r.is_err(), "a result although a revision does not exist");
}

// ---- C27
fn text(n: usize) -> String { let mut s = String::new(); for _ in 0..n { unsafe { s.as_mut_vec() }.push(vs::u8s("c", 0x20, 0x7e)) } s }
fn handed(rev: &str) {
    let dash = rev.len() > 0 && rev.as_bytes()[0] == b'-';
    let remote = format!("origin/{}", rev);
    if dash { vs::check(g().log.is_empty(), "git is started for a revision that begins with a dash"); return }
    for (args, _) in &g().log {
        // the revision does not begin with a dash, so only the program's own arguments can
        let own: Vec<&String> = args.iter().skip(1).filter(|a| !["--hard", "--", "origin"].contains(&a.as_str())).collect();
        let n = own.iter().filter(|a| a.as_bytes() == rev.as_bytes() || a.as_bytes() == remote.as_bytes()).count();
        vs::check(n == own.len() && (n == 1 || rev == "origin" || rev.is_empty()), "the revision is not handed to git unchanged");
    }
}
#[no_mangle] pub extern "C" fn prop_c27_text() {
    repo("/w/r", &[], numbered(1), Luck::Any);
    let rev = text(vs::choose("length", 5));
    let dash = rev.len() > 0 && rev.as_bytes()[0] == b'-';
    let dir = Path::new("r");
    let r = match vs::choose("function", 3) {
        0 => git_checkout(dir, &rev, flag("pull"), flag("force")),
        1 => git_pull(dir, &rev),
        _ => git_reset(dir, &rev, flag("pull")),
    };
    if dash { vs::check(r.is_err(), "a revision that begins with a dash is accepted"); vs::cover("dash") } else { vs::cover("plain") }
    handed(&rev);
}
#[no_mangle] pub extern "C" fn prop_c27_commits() {
    repo("/w/r", &[("v1", 0)], numbered(1), Luck::Good);
    let rev = text(1 + vs::choose("length", 3));
    let dash = rev.as_bytes()[0] == b'-';
    let first = flag("first");
    let (old, new) = if first { (rev.as_str(), "v1") } else { ("v1", rev.as_str()) };
    let r = compare_commits(Path::new("r"), old, new, &opts(flag("force"), flag("pull"), false, flag("ignore")), &nofilter(), "*.rs", usize::MAX);
    if dash { vs::check(r.is_err(), "a revision that begins with a dash is accepted"); if first { vs::check(g().log.is_empty(), "git is started for a revision that begins with a dash") } }
    for (args, _) in &g().log { for a in args { let d = a.as_bytes(); vs::check(d.is_empty() || d[0] != b'-' || a == "--hard" || a == "--", "an option from elsewhere") } }
}

// ---- C28
#[no_mangle] pub extern "C" fn prop_c28_network() {
    let dirs = ["/w/r", "/r", "/w/a/r"];
    let d = vs::choose("repository", 3);
    repo(dirs[d], &[("v1", 1), ("v2", 2), ("origin/v1", 3)], numbered(5), Luck::Any);
    let path = if d == 1 { format!("{}/r", world::root()) } else if d == 2 { "./a/r".to_string() } else { "r".to_string() };
    let (force, pull, offline) = (flag("force"), flag("pull"), flag("offline"));
    let r = compare_commits(Path::new(&path), "v1", "v2", &opts(force, pull, offline, flag("ignore")), &nofilter(), "**/*.rs", usize::MAX);
    let log = &g().log;
    const NETWORK: [&str; 9] = ["fetch", "pull", "clone", "push", "ls-remote", "remote", "submodule", "fetch-pack", "archive"];
    let net: Vec<usize> = (0..log.len()).filter(|i| NETWORK.contains(&log[*i].0[0].as_str())).collect();
    if !pull || offline { vs::check(net.is_empty(), "the network is accessed"); vs::cover("local") }
    else {
        vs::check(net.len() <= 2 && (r.is_err() || net.len() == 2), "not one fetch per revision");
        for (k, i) in net.iter().enumerate() {
            let rev = ["v1", "v2"][k];
            vs::check(log[*i].0.iter().any(|a| a == rev) && log[*i].0[0] == "fetch", "another revision is fetched");
            vs::check(!log[..*i].iter().any(|c| c.0[0] != "fetch" && c.0.iter().any(|a| a == rev || *a == format!("origin/{}", rev))), "fetched after the revision was checked out");
        }
        if let Some(i) = log.iter().position(|c| c.0[0] != "fetch") { vs::check(i > 0, "checked out before the fetch") }
        vs::cover("fetched");
    }
}

// ---- C29
const TREE: [&str; 12] = ["a.rs", "b.rs", "mod.rs", "w/a.rs", "w/mod.rs", "w/c.txt", "w/x/a.rs", "w/x/mod.rs", ".h/a.rs", ".a.rs", "v/ab.rs", "xmod.rs"];
fn plant(dir: &str) {
    repo(dir, &[("v1", 0)], vec![TREE.iter().map(|p| (p.to_string(), weights(5))).collect()], Luck::Good);
    // around the repository
    for p in ["out.rs", "a.rs", "s/a.rs", "rr/a.rs"] { world::put(&format!("{}{}/../{}", world::root(), dir, p), weights(6).as_bytes()) }
}
/// Whether one component of a pattern matches one name.
fn comp(p: &[u8], n: &[u8]) -> bool {
    if p.is_empty() { return n.is_empty() }
    if p[0] == b'*' { return comp(&p[1..], n) || (!n.is_empty() && comp(p, &n[1..])) }
    if n.is_empty() { return false }
    if p[0] == b'?' { return comp(&p[1..], &n[1..]) }
    if p[0] == b'[' {
        let neg = p.len() > 1 && p[1] == b'!';
        let from = if neg { 2 } else { 1 };
        // a closing bracket directly after the opening one is an ordinary character
        if let Some(k) = (from + 1..p.len()).find(|k| p[*k] == b']') {
            let set = &p[from..k];
            let (mut i, mut hit) = (0, false);
            while i < set.len() { if i + 2 < set.len() && set[i + 1] == b'-' { hit |= set[i] <= n[0] && n[0] <= set[i + 2]; i += 3 } else { hit |= set[i] == n[0]; i += 1 } }
            return hit != neg && comp(&p[k + 1..], &n[1..]);
        }
        return false;
    }
    p[0] == n[0] && comp(&p[1..], &n[1..])
}
fn parts(p: &[&[u8]], f: &[&[u8]]) -> bool {
    if p.is_empty() { return f.is_empty() }
    if p[0] == b"**" { return parts(&p[1..], f) || (!f.is_empty() && parts(p, &f[1..])) }
    // a leading dot may also stand for the directory itself
    if p[0][0] == b'.' && comp(p[0], b".") && parts(&p[1..], f) { return true }
    !f.is_empty() && comp(p[0], f[0]) && parts(&p[1..], &f[1..])
}
fn matches(pattern: &str, file: &str) -> bool {
    let p: Vec<&[u8]> = pattern.as_bytes().split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
    let f: Vec<&[u8]> = file.as_bytes().split(|c| *c == b'/').collect();
    parts(&p, &f)
}
fn is_mod(f: &str) -> bool { f == "mod.rs" || f.ends_with("/mod.rs") }
/// What a comparison with these patterns reads.
fn reads(patterns: &str, dir: &str, path: &str, exact: bool) {
    let r = compare_commits(Path::new(path), "v1", "v1", &opts(flag("force"), false, false, true), &nofilter(), patterns, usize::MAX);
    let base = format!("{}/", dir);
    let opened = world::opened();
    vs::check(opened.iter().all(|p| p.starts_with(&base)), "a file outside the repository is read");
    let inside: Vec<&str> = opened.iter().map(|p| &p[base.len()..]).collect();
    vs::check(inside.iter().all(|p| !is_mod(p)), "a module file is read");
    let count = |f: &str| inside.iter().filter(|p| **p == f).count();
    if r.is_ok() && exact {
        for f in TREE {
            let want = !is_mod(f) && patterns.split(',').any(|p| matches(p, f));
            // once per revision
            vs::check(count(f) == if want { 2 } else { 0 }, if want { "a selected file is not read once" } else { "a file that is not selected is read" });
        }
        vs::cover("listed");
    } else { for f in TREE { vs::check(count(f) <= 2, "a file is read twice") } if r.is_err() { vs::cover("refused") } }
}
const PATTERNS: [&str; 22] = ["a.rs", "*.rs", "*/*.rs", "**/*.rs", "w/*.rs", "w/**/*.rs", "w/x/*", "?.rs", "[ab].rs", "[!a].rs", ".*/*.rs", "*", "**/a.rs", "./a.rs", "/a.rs", "w//a.rs", "none/*.rs", "v/[a-c]b.rs", "**/**/mod.rs", "w/*/../*.rs", "{a,b}.rs", "*a*"];
#[no_mangle] pub extern "C" fn prop_c29_patterns() {
    let d = vs::choose("repository", 3);
    let dir = ["/w/r", "/w/r[1]", "/w/a/r"][d];
    plant(dir);
    let path = ["r", "./r[1]", "a/r"][d];
    let mut p = PATTERNS[vs::choose("pattern", PATTERNS.len())].to_string();
    if flag("two") { p.push(','); p.push_str(PATTERNS[vs::choose("pattern", PATTERNS.len())]) }
    let bad = p.contains("..");
    reads(&p, dir, path, true);
    if bad { vs::check(world::opened().is_empty(), "a pattern with a parent directory is followed") }
}
/// Symbolic characters in the pattern.
#[no_mangle] pub extern "C" fn prop_c29_characters() {
    vs::merge(false);
    plant("/w/r");
    let a = text(1);
    let p = match vs::choose("form", 10) {
        0 => format!("{}.rs", a), 1 => format!(".{}/out.rs", a), 2 => format!("{}./a.rs", a), 3 => format!("w/{}.rs", a), 4 => format!("[{}].rs", a), 5 => format!("[!{}]*", a), 6 => format!("*{}*", a), 7 => format!("w/.{}/.[.]/s/a.rs", a), 8 => format!("{}", a), _ => format!("w{}a.rs", a),
    };
    reads(&p, "/w/r", "r", true)
}
/// Patterns made of what could lead out of the repository.
fn hostile(n: usize) {
    vs::merge(false);
    plant("/w/r");
    let mut p = String::new();
    for _ in 0..n { let c = vs::u8s("c", b'*', b's'); vs::assume(c == b'.' || c == b'*' || c == b'/' || c == b's' || c == b'['); unsafe { p.as_mut_vec() }.push(c) }
    p.push_str(["", "/a.rs", "*.rs"][vs::choose("end", 3)]);
    reads(&p, "/w/r", "r", false)
}
#[no_mangle] pub extern "C" fn prop_c29_hostile() { hostile(5) }
#[no_mangle] pub extern "C" fn prop_c29_hostile_long() { hostile(7) }
#[no_mangle] pub extern "C" fn prop_c29_characters_two() {
    vs::merge(false);
    plant("/w/r");
    let (a, b) = (text(1), text(1));
    let p = match vs::choose("form", 5) { 0 => format!("{}{}.rs", a, b), 1 => format!("{}{}/out.rs", a, b), 2 => format!("w/{}{}/../s/a.rs", a, b), 3 => format!("[{}]{}a.rs", a, b), _ => format!("{}{}", a, b) };
    reads(&p, "/w/r", "r", false)
}
/// The limit of selected files.
#[no_mangle] pub extern "C" fn prop_c29_limit() {
    plant("/w/r");
    let max = vs::choose("limit", 10);
    let (p, n) = [("*.rs", vec![3]), ("w/*.rs", vec![1]), ("*.rs,w/*.rs", vec![3, 4]), ("**/*.rs,none", vec![7, 7]), ("w/*.rs,*.rs", vec![1, 4]), ("none", vec![0]), (".h/*.rs,v/*.rs,w/x/*.rs", vec![1, 2, 3])][vs::choose("pattern", 7)].clone();
    let _ = n;
    let ps: Vec<&str> = p.split(',').collect();
    let r = compare_commits(Path::new("r"), "v1", "v1", &opts(false, false, false, true), &nofilter(), p, max);
    let over = (1..=ps.len()).any(|k| { let some = &ps[..k]; TREE.iter().filter(|f| !is_mod(f) && some.iter().any(|p| matches(p, f))).count() > max });
    if over { vs::check(r.is_err() && world::opened().is_empty(), "more files than the limit are read"); vs::cover("over") } else { vs::check(r.is_ok(), "a selection within the limit is refused"); vs::cover("within") }
}

// ---- C31
fn letter(n: &str) -> char { vs::u8s(n, b'a', b'c') as char }
/// Two files in each of two revisions, with symbolic names, wherever the repository is and however it is called.
#[no_mangle] pub extern "C" fn prop_c31_commits() {
    let names: Vec<String> = (0..2).map(|_| match vs::choose("depth", 3) { 0 => format!("{}.rs", letter("f")), 1 => format!("{}/{}.rs", letter("d"), letter("f")), _ => format!("{}/x/{}.rs", letter("d"), letter("f")) }).collect();
    let d = vs::choose("repository", 6);
    let (dir, path) = [("/w/r", "r"), ("/w/r", "./r"), ("/r", "/r"), ("/w/a/r", "./a/./r"), ("/w/r", "r/"), ("/a", "../a")][d];
    let path = if d == 2 { format!("{}{}", world_root(), path) } else { path.to_string() };
    repo(dir, &[("v1", 1), ("v2", 2)], vec![vec![], vec![(names[0].clone(), weights(3))], vec![(names[1].clone(), weights(4))]], Luck::Good);
    match compare_commits(Path::new(&path), "v1", "v2", &opts(false, false, false, false), &nofilter(), "**/*.rs", usize::MAX) {
        Ok(diff) => {
            let row = |f: &str| diff.iter().find(|x| x.file.as_bytes() == f.as_bytes()).and_then(|x| x.term()).map(|t| (t.old_v, t.new_v));
            if names[0].as_bytes() == names[1].as_bytes() {
                vs::check(diff.len() == 1 && row(&names[0]) == Some((Some(3), Some(4))), "the same file of two revisions is not recognised"); vs::cover("same");
            } else {
                vs::check(diff.len() == 2, "different files are taken for one");
                vs::check(row(&names[0]) == Some((Some(3), None)) && row(&names[1]) == Some((None, Some(4))), "not identified by its path"); vs::cover("different");
            }
        }
        Err(_) => vs::check(false, "the comparison fails"),
    }
}
fn world_root() -> &'static str { world::init(); world::root() }
/// Files compared directly are identified by their names.
#[no_mangle] pub extern "C" fn prop_c31_files() {
    world::init();
    let name = |k: usize| match vs::choose("form", 4) { 0 => format!("{}.rs", letter("f")), 1 => format!("{}/{}.rs", letter("d"), letter("f")), 2 => format!("./{}/./{}.rs", letter("d"), letter("f")), _ => format!("{}/{}/../{}.rs", ["o", "n"][k], letter("d"), letter("f")) };
    let (a, b) = (name(0), name(1));
    world::mkdir("o/a"); world::mkdir("o/b"); world::mkdir("o/c"); world::mkdir("n/a"); world::mkdir("n/b"); world::mkdir("n/c");
    world::put(&a, weights(3).as_bytes());
    let olds = pallet::parse_files(&[PathBuf::from(&a)]);
    world::put(&b, weights(4).as_bytes());
    let news = pallet::parse_files(&[PathBuf::from(&b)]);
    vs::check(olds.is_ok() && news.is_ok(), "the files cannot be read");
    let file = |p: &str| p.as_bytes()[p.len() - 4];
    match compare_files(olds.unwrap(), news.unwrap(), &opts(false, false, true, false), &nofilter()) {
        Ok(diff) => {
            let same = file(&a) == file(&b);
            vs::check(diff.len() == if same { 1 } else { 2 }, "identity is not the file name");
            for d in &diff { vs::check(d.file.len() == 4 && (d.file.as_bytes()[0] == file(&a) || d.file.as_bytes()[0] == file(&b)), "not the file name") }
            vs::cover(if same { "same" } else { "different" });
        }
        Err(_) => vs::check(false, "the comparison fails"),
    }
}
/// The identity of any path below any repository.
fn strip(n: usize) {
    vs::merge(false);
    let repo = ["r", "./r", "r/", "/q/r", ".", "", "a", "../r", "r/./a"][vs::choose("repository", 9)];
    let len = 1 + vs::choose("length", n);
    let mut rel = String::new();
    for _ in 0..len { let c = vs::u8s("c", b'.', b'b'); vs::assume(c == b'.' || c == b'/' || c == b'a' || c == b'b'); unsafe { rel.as_mut_vec() }.push(c) }
    vs::assume(rel.as_bytes()[0] != b'/');
    let parts: Vec<&str> = rel.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    vs::assume(!parts.is_empty() && parts.iter().all(|c| *c != ".."));
    let path = Path::new(repo).join(&rel);
    use subweight_core::parse::PathStripping::*;
    vs::check(FileName.strip(Path::new(repo), &path) == parts[parts.len() - 1], "not the name of the file");
    vs::check(RepoRelative.strip(Path::new(repo), &path) == parts.join("/"), "not the path relative to the repository");
}
#[no_mangle] pub extern "C" fn prop_c31_strip() { strip(5) }
#[no_mangle] pub extern "C" fn prop_c31_strip_long() { strip(8) }
