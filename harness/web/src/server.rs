//! C33: what the server compares, and what it answers from its cache.
use crate::{do_compare_cached, page, CompareArgs, Repo, REPOS};
use subweight_core::*;
use vs::{html::*, text::same};

static mut NOW: (u64, u32) = (1000, 0);
static mut CALLS: Vec<Call> = Vec::new();
static mut FAIL: bool = false;
fn calls() -> &'static mut Vec<Call> { unsafe { &mut *std::ptr::addr_of_mut!(CALLS) } }
#[cfg(not(feature = "replay"))]
#[no_mangle] pub unsafe extern "C" fn model_clock_gettime(_clock: i32, out: *mut i64) -> i32 { *out = NOW.0 as i64; *out.add(1) = NOW.1 as i64; 0 }
#[cfg(feature = "replay")]
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_clock: i32, out: *mut i64) -> i32 { *out = NOW.0 as i64; *out.add(1) = NOW.1 as i64; 0 }

fn flag(n: &str) -> bool { vs::choose(n, 2) == 1 }
fn changed(name: &str, percent: f64) -> ExtrinsicDiff {
    let c = TermChange { old: None, old_v: Some(100), new: None, new_v: Some(100), scope: scope::SimpleScope::empty(), percent, change: RelativeChange::Changed, method: CompareMethod::Base };
    ExtrinsicDiff { name: name.into(), file: "a.rs".into(), change: TermDiff::Changed(c) }
}
/// The rows of the n-th comparison, in no order.
fn rows(n: usize) -> TotalDiff {
    let mut r = vec![changed("a", 4.0), changed("b", -30.0), ExtrinsicDiff { name: "c".into(), file: "a.rs".into(), change: TermDiff::Failed("bad".into()) }, changed("d", 2.0), changed("e", 30.0)];
    for x in &mut r { x.name.push_str(&n.to_string()) }
    r
}
fn compared(c: Call) -> Result<TotalDiff, String> {
    calls().push(c);
    if unsafe { FAIL } { Err("broken".into()) } else { Ok(rows(calls().len())) }
}
pub fn start() {
    vs::merge(false);
    for (n, p) in [("r", "/repos/r"), ("s", "/elsewhere/s")] { REPOS.insert(n.to_string(), Repo { name: n.into(), path: p.into(), organization: "o".into() }); }
    answer(compared);
}
fn names(d: &TotalDiff) -> String { d.iter().map(|r| r.name.clone()).collect::<Vec<_>>().join(" ") }
/// A text without outer blanks, and the same with them.
fn text(n: &str) -> (String, String) {
    let c = vs::u8s(n, 0x21, 0x7e);
    let t = unsafe { String::from_utf8_unchecked(vec![c]) };
    (t.clone(), match vs::choose("blanks", 2) { 0 => t, _ => format!(" {}\n", t) })
}
const METHODS: [CompareMethod; 5] = [CompareMethod::Base, CompareMethod::GuessWorst, CompareMethod::ExactWorst, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic];
/// One request of any kind.
#[no_mangle] pub extern "C" fn prop_c33_request() {
    start();
    let mut a = page::request();
    let ((old, o), (new, n), (pattern, p)) = (text("old"), text("new"), text("pattern"));
    (a.old, a.new, a.path_pattern) = (o, n, p);
    let repo = vs::choose("repo", 3);
    a.repo = ["r", "s", "t"][repo].into();
    a.threshold = vs::u32s("threshold", 0, u32::MAX);
    let focus = vs::choose("focus", 3);
    if focus == 0 {
        a.method = METHODS[vs::choose("method", 5)];
        a.unit = if flag("unit") { Dimension::Time } else { Dimension::Proof };
    } else if focus == 1 {
        a.ignore_errors = flag("ignore errors");
        a.git_pull = [None, Some(false), Some(true)][vs::choose("pull", 3)];
    } else {
        let t = |n: &str| match vs::choose(n, 3) { 0 => None, 1 => Some(String::new()), _ => Some(unsafe { String::from_utf8_unchecked(vec![vs::u8s(n, 0, 0x7f)]) }) };
        a.extrinsic = t("extrinsic");
        a.pallet = t("pallet");
    }
    unsafe { FAIL = flag("fails") }
    let r = do_compare_cached(a.clone());
    if repo == 2 { vs::check(r.is_err() && calls().is_empty(), "an unknown repository is compared"); vs::cover("unknown"); return }
    vs::check(calls().len() == 1, "not one comparison");
    let c = calls()[0].clone();
    let Some((path, co, cn, cp, max)) = c.commits else { vs::check(false, "another kind of comparison"); return };
    vs::check(path.to_str() == Some(["/repos/r", "/elsewhere/s"][repo]), "another repository");
    vs::check(same(&co, &old), "another old revision");
    vs::check(same(&cn, &new), "another new revision");
    vs::check(same(&cp, &pattern), "another pattern");
    vs::check(max >= 1000, "a small limit of files");
    vs::check(c.params.method == a.method, "another method");
    vs::check(c.params.unit == a.unit, "another dimension");
    vs::check(c.params.ignore_errors == a.ignore_errors, "another treatment of errors");
    vs::check(c.params.should_pull() == a.git_pull.unwrap_or(true), "another choice of pulling");
    vs::check(c.params.git_force, "leftovers of a previous comparison are compared");
    vs::check(c.filter.threshold == a.threshold as f64, "another threshold");
    vs::check(c.filter.change.is_none(), "some kinds are left out");
    let text = |a: &Option<String>, b: &Option<String>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false };
    vs::check(text(&c.filter.extrinsic, &a.extrinsic), "another selection of extrinsics");
    vs::check(text(&c.filter.pallet, &a.pallet), "another selection of pallets");
    match r {
        Err(_) => { vs::check(unsafe { FAIL }, "a result is lost"); vs::cover("failed") }
        Ok(r) => {
            vs::check(!unsafe { FAIL } && !r.was_cached, "a failure is hidden");
            // by the threshold of the request and in the order of the other outputs
            let f = FilterParams { threshold: a.threshold as f64, change: None, extrinsic: None, pallet: None };
            let mut want = rows(1);
            if focus == 2 { want = filter_changes(want, &c.filter) } else { want = filter_changes(want, &f) }
            sort_changes(&mut want);
            vs::check(names(&r.value) == names(&want), "other rows");
            vs::cover("compared");
        }
    }
}
/// A variation of a request in one field.
fn varied(k: usize) -> CompareArgs {
    let mut a = page::request();
    a.repo = "r".into();
    let c = |n: &str| unsafe { String::from_utf8_unchecked(vec![vs::u8s(n, 0x61, 0x7a)]) };
    match k {
        0 => a.old = c("text"),
        1 => a.new = c("text"),
        2 => if flag("repo") { a.repo = "s".into() },
        3 => a.path_pattern = c("text"),
        4 => a.extrinsic = if flag("some") { Some(c("text")) } else { None },
        5 => a.pallet = if flag("some") { Some(c("text")) } else { None },
        6 => a.ignore_errors = flag("on"),
        7 => a.threshold = vs::u32s("threshold", 0, u32::MAX),
        8 => a.unit = if flag("unit") { Dimension::Time } else { Dimension::Proof },
        9 => a.git_pull = [None, Some(false), Some(true)][vs::choose("pull", 3)],
        // the same characters, divided differently among two fields
        11..=13 => {
            let n = if k == 13 { 3 } else { 2 };
            let i = 1 + vs::choose("division", n) - (k == 13) as usize;
            let t: Vec<u8> = (0..n + (k != 13) as usize).map(|_| vs::u8s("text", 0x61, 0x7a)).collect();
            let s = |b: &[u8]| unsafe { String::from_utf8_unchecked(b.to_vec()) };
            let (x, y) = (s(&t[..i]), s(&t[i..]));
            match k {
                11 => { a.old = x; a.new = y }
                12 => { a.new = x; a.path_pattern = y }
                _ => { a.extrinsic = Some(x).filter(|x| !x.is_empty()); a.pallet = Some(y) }
            }
        }
        _ => a.method = METHODS[vs::choose("method", 5)],
    }
    a
}
/// Requests for the same.
fn equal(a: &CompareArgs, b: &CompareArgs) -> bool {
    let t = |a: &String, b: &String| a.trim() == b.trim();
    let o = |a: &Option<String>, b: &Option<String>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => a == b, _ => false };
    t(&a.old, &b.old) && t(&a.new, &b.new) && a.repo == b.repo && t(&a.path_pattern, &b.path_pattern) && o(&a.extrinsic, &b.extrinsic) && o(&a.pallet, &b.pallet) && a.ignore_errors == b.ignore_errors && a.threshold == b.threshold && a.unit as u8 == b.unit as u8 && a.git_pull.unwrap_or(true) == b.git_pull.unwrap_or(true) && a.method as u8 == b.method as u8
}
fn sequence(n: usize) {
    start();
    let k = vs::choose("field", 14);
    // (request, time, answered by a comparison that succeeded)
    let mut past: Vec<(CompareArgs, u64, bool)> = vec![];
    for _ in 0..n {
        let a = varied(k);
        let now = if past.is_empty() { 1000 } else { let t = vs::u64s("time", 1000, 1 << 40); vs::assume(t >= past[past.len() - 1].1); t };
        unsafe { NOW = (now, 0); FAIL = flag("fails") }
        let before = calls().len();
        let r = do_compare_cached(a.clone());
        if calls().len() > before {
            vs::check(calls().len() == before + 1 && r.is_ok() != unsafe { FAIL }, "another answer than the comparison's");
            if let Ok(r) = r { vs::check(!r.was_cached && r.value.iter().all(|r| r.name.ends_with(&calls().len().to_string())), "another answer than the comparison's") }
            past.push((a, now, unsafe { !FAIL }));
            vs::cover("compared");
        } else {
            // the answer of an earlier, equal and not too old request
            let Ok(r) = r else { vs::check(false, "a failure is answered from the cache"); return };
            vs::check(r.was_cached, "a cached answer is not marked");
            let (mut of, mut good) = (0, false);
            for (i, _) in calls().iter().enumerate() { if r.value.iter().all(|r| r.name.ends_with(&(i + 1).to_string())) { of = i + 1 } }
            let mut count = 0;
            for (b, t, ok) in past.iter() { count += 1; if count == of { good = *ok && equal(b, &a) && now - *t <= 600 } }
            vs::check(of > 0 && good, "the answer to another request, or one that is too old");
            vs::cover("cached");
        }
    }
}
#[no_mangle] pub extern "C" fn prop_c33_twice() { sequence(2) }
#[no_mangle] pub extern "C" fn prop_c33_thrice() { sequence(3) }
#[no_mangle] pub extern "C" fn prop_c33_four() { sequence(4) }
fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures_noop();
    let mut c = std::task::Context::from_waker(&w);
    loop { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut c) { return r } }
}
fn futures_noop() -> std::task::Waker {
    use std::task::*;
    const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| (), |_| (), |_| ());
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) }
}
fn hex(n: u8) -> u8 { b'0' + n + (n > 9) as u8 * 7 }
/// As in the query of an address.
pub fn encoded(s: &str) -> String { let mut r = Vec::new(); for c in s.bytes() { r.extend([b'%', hex(c >> 4), hex(c & 15)]) } unsafe { String::from_utf8_unchecked(r) } }
pub fn get(url: &str) -> (u16, Vec<u8>) {
    run(async {
        let app = actix_web::test::init_service(actix_web::App::new().service(crate::compare).service(crate::version).service(crate::root).service(crate::branches).service(crate::compare_mrs).service(crate::compare_commit)).await;
        let r = actix_web::test::call_service(&app, actix_web::test::TestRequest::with_uri(url).to_request()).await;
        (r.status().as_u16(), actix_web::test::read_body(r).await.to_vec())
    })
}
/// A text of printable characters (the server decodes character references, so there is none).
fn chars(_: &str, max: usize) -> String {
    let t = page::text(1 + vs::choose("length", max));
    for c in t.bytes() { vs::assume((c != b'&') & (c > 0x20)); }
    t
}
fn value<'a>(page: &'a [Node], id: &str) -> &'a [u8] { page.iter().find(|n| attr(n, "id") == Some(id.as_bytes())).and_then(|n| attr(n, "value")).unwrap_or(b"?") }
fn checked(page: &[Node], id: &str) -> bool { page.iter().any(|n| attr(n, "id") == Some(id.as_bytes()) && attr(n, "checked").is_some()) }
fn says(page: &[Node], t: &str) -> bool { page.iter().any(|n| matches!(n, Node::Text(x) if String::from_utf8_lossy(&decoded(x)).contains(t))) }
/// From the address to the page.
#[no_mangle] pub extern "C" fn prop_c33_http() { http(2) }
#[no_mangle] pub extern "C" fn prop_c33_http_long() { http(4) }
fn http(n: usize) {
    start();
    let field = vs::choose("field", 9);
    let (mut old, mut new, mut pattern, mut extrinsic, mut pallet, mut threshold, mut ignore, mut pull, mut method, mut unit) = ("a".to_string(), "b".to_string(), "p".to_string(), None, None, "3".to_string(), "false", None, 0, 0);
    match field {
        0 => old = chars("text", n),
        1 => new = chars("text", n),
        2 => pattern = chars("text", n),
        3 => extrinsic = Some(chars("text", n)),
        4 => pallet = Some(chars("text", n)),
        5 => threshold = unsafe { String::from_utf8_unchecked((0..1 + vs::choose("digits", 3)).map(|_| vs::u8s("digit", b'0', b'9')).collect()) },
        6 => ignore = ["false", "true"][vs::choose("on", 2)],
        7 => pull = [None, Some("false"), Some("true")][vs::choose("pull", 3)],
        _ => { method = vs::choose("method", 5); unit = vs::choose("unit", 2) }
    }
    unsafe { FAIL = field == 8 && flag("fails") }
    let mut url = format!("/compare?old={}&new={}&repo=r&path_pattern={}&ignore_errors={}&threshold={}&unit={}&method={}", encoded(&old), encoded(&new), encoded(&pattern), ignore, threshold, ["time", "proof"][unit], ["base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic"][method]);
    if let Some(t) = &extrinsic { url.push_str("&extrinsic="); url.push_str(&encoded(t)) }
    if let Some(t) = &pallet { url.push_str("&pallet="); url.push_str(&encoded(t)) }
    if let Some(t) = pull { url.push_str("&git_pull="); url.push_str(t) }
    let (status, r) = get(&url);
    vs::check(calls().len() == 1, "not one comparison");
    let c = calls()[0].clone();
    let Some((path, co, cn, cp, max)) = c.commits else { vs::check(false, "another kind of comparison"); return };
    vs::check(path.to_str() == Some("/repos/r"), "another repository");
    vs::check(same(&co, &old), "another old revision");
    vs::check(same(&cn, &new), "another new revision");
    vs::check(same(&cp, &pattern), "another pattern");
    let text = |a: &Option<String>, b: &Option<String>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false };
    vs::check(text(&c.filter.extrinsic, &extrinsic) && text(&c.filter.pallet, &pallet), "another selection");
    vs::check(c.params.ignore_errors == (ignore == "true") && c.params.should_pull() == (pull != Some("false")), "another option");
    vs::check(c.params.method == METHODS[method] && c.params.unit == [Dimension::Time, Dimension::Proof][unit], "another method or dimension");
    let mut limit = 0u32;
    for d in threshold.bytes() { limit = limit * 10 + (d - b'0') as u32 }
    vs::check(c.filter.threshold == limit as f64, "another threshold");
    let page = read(&r);
    if unsafe { FAIL } {
        vs::check(status >= 400 && says(&page, "broken") && !page.iter().any(|n| attr(n, "id") == Some(b"sort_me")), "a failure is hidden");
        vs::cover("failed");
        return;
    }
    vs::check(status == 200, "an answer is refused");
    let (lines, before) = page::table(&page);
    // (-30, 30, 4 and 2 percent)
    let want: Vec<&str> = rows(1).iter().filter_map(|r| r.term()).map(|t| t.percent.abs() as u32).zip(["a1", "b1", "d1", "e1"]).filter(|(p, _)| *p >= limit).map(|(_, n)| n).collect();
    vs::check(lines.len() == want.len() && want.iter().all(|n| lines.iter().any(|l| l.cells[1].text.starts_with(n))), "other rows");
    vs::check(before.contains("bad"), "a message is missing");
    vs::check(says(&page, "No") && !says(&page, "Yes"), "a fresh answer is shown as cached");
    let at = |id: &str, t: &str| same(std::str::from_utf8(&decoded(value(&page, id))).unwrap_or("?"), t);
    vs::check(at("input_old", &old) && at("input_new", &new), "other revisions are shown");
    vs::check(at("input_path_pattern", &pattern) && at("input_extrinsic", extrinsic.as_deref().unwrap_or(".*")) && at("input_pallet", pallet.as_deref().unwrap_or(".*")), "another selection is shown");
    vs::check(checked(&page, "checkbox_ignore_errors") == (ignore == "true") && checked(&page, "checkbox_git_pull") == (pull != Some("false")), "other options are shown");
    vs::cover("compared");
}
/// What is no request.
#[no_mangle] pub extern "C" fn prop_c33_refused() {
    start();
    let parts = [("old", "a"), ("new", "b"), ("repo", "r"), ("path_pattern", "p"), ("ignore_errors", "true"), ("threshold", "3"), ("unit", "time"), ("method", "base")];
    let k = vs::choose("part", 8);
    let how = vs::choose("how", 2);
    let mut url = "/compare?".to_string();
    for (i, (n, v)) in parts.iter().enumerate() {
        if i == k && how == 0 { continue }
        // a text that the part cannot have
        let bad = match n { &"repo" => "t", &"ignore_errors" => "maybe", &"threshold" => ["-1", "x", "4294967296", "1.5"][vs::choose("number", 4)], &"unit" | &"method" => "none", _ => { vs::assume(i != k); "" } };
        url.push_str(&format!("{}={}&", n, if i == k { bad } else { v }));
    }
    let (status, r) = get(&url);
    vs::check(status >= 400 && calls().is_empty() && !read(&r).iter().any(|n| attr(n, "id") == Some(b"sort_me")), "a comparison that was not asked for");
    vs::cover("refused");
}
/// Hostile texts in the address.
fn hostile(n: usize) {
    start();
    let field = vs::choose("field", 11);
    let t = match vs::choose("text", 4) { 0 => page::text(n), k => ["&lt;b&gt;", "&#34; x=&quot;", "\"><b a='"][k - 1].to_string() };
    let ask = |t: &str| {
        let parts = [("old", "a"), ("new", "b"), ("path_pattern", "p"), ("extrinsic", "e"), ("pallet", "q"), ("repo", "r"), ("ignore_errors", "true"), ("threshold", "3"), ("unit", "time"), ("method", "base")];
        if field == 10 { return get(&format!("/version?is={}", encoded(t))) }
        let mut url = "/compare?".to_string();
        for (i, (k, v)) in parts.iter().enumerate() { url.push_str(&format!("{}={}&", k, if i == field { encoded(t) } else { v.to_string() })) }
        get(&url)
    };
    let ((a, got), (b, want)) = (ask(&t), ask(&"\u{1}".repeat(t.len())));
    if a == b { vs::check(skeleton(&read(&got)) == skeleton(&read(&want)), "the text of a request changes the structure of the answer") }
    vs::cover("answer");
}
#[no_mangle] pub extern "C" fn prop_c25_http() { hostile(2) }
#[no_mangle] pub extern "C" fn prop_c25_http_long() { hostile(3) }
