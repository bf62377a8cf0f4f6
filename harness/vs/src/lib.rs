//! Interface between a harness and the symbolic engine. With feature `replay` the same harness is an
//! ordinary program whose inputs come from the file named by VS_MODEL.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn vs_sym(name: *const u8, nlen: usize, bits: u64, lol: u64, loh: u64, hil: u64, hih: u64, out: *mut u8);
        fn vs_choose(name: *const u8, nlen: usize, n: u64) -> u64;
        fn vs_assume(c: u32);
        fn vs_assert(c: u32, msg: *const u8, mlen: usize);
        fn vs_cover(msg: *const u8, mlen: usize);
        fn vs_merge(on: u32);
        fn vs_panics(ok: u32);
        fn vs_end() -> !;
        fn vs_token(lo: u64, hi: u64, bits: u64) -> u64;
        fn vs_token_value(id: u64, out: *mut u8) -> u64;
        fn vs_concrete(a: u64, b: u64) -> u64;
        fn vs_dbg(msg: *const u8, mlen: usize, v: u64);
    }
    #[inline(never)]
    pub fn sym(name: &str, bits: u32, lo: u128, hi: u128) -> u128 {
        let mut b = [0u8; 16];
        unsafe { vs_sym(name.as_ptr(), name.len(), bits as u64, lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64, b.as_mut_ptr()) };
        u128::from_le_bytes(b)
    }
    pub fn choose(name: &str, n: usize) -> usize { unsafe { vs_choose(name.as_ptr(), name.len(), n as u64) as usize } }
    pub fn assume(c: bool) { unsafe { vs_assume(c as u32) } }
    pub fn check(c: bool, msg: &str) { unsafe { vs_assert(c as u32, msg.as_ptr(), msg.len()) } }
    pub fn cover(msg: &str) { unsafe { vs_cover(msg.as_ptr(), msg.len()) } }
    pub fn merge(on: bool) { unsafe { vs_merge(on as u32) } }
    /// Merges paths inside the syntax parser only.
    pub fn merge_parsing() { unsafe { vs_merge(2) } }
    pub fn panics_ok(on: bool) { unsafe { vs_panics(on as u32) } }
    pub fn end() -> ! { unsafe { vs_end() } }
    pub fn symbolic() -> bool { true }
    pub fn token(v: u128, bits: u32) -> u64 { unsafe { vs_token(v as u64, (v >> 64) as u64, bits as u64) } }
    pub fn token_value(id: u64) -> (u128, u32) { let mut b = [0u8; 16]; let w = unsafe { vs_token_value(id, b.as_mut_ptr()) }; (u128::from_le_bytes(b), w as u32) }
    pub fn concrete(a: u64) -> u64 { unsafe { vs_concrete(a, 0) } }
    pub fn dbg(m: &str, v: u64) { unsafe { vs_dbg(m.as_ptr(), m.len(), v) } }
}
#[cfg(feature = "replay")]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static COUNT: Mutex<Option<(HashMap<String, u32>, HashMap<String, u128>)>> = Mutex::new(None);
    fn get(name: &str, lo: u128) -> u128 {
        let mut g = COUNT.lock().unwrap();
        let st = g.get_or_insert_with(|| {
            let mut m = HashMap::new();
            let txt = std::fs::read_to_string(std::env::var("VS_MODEL").expect("VS_MODEL")).expect("model file");
            for l in txt.lines() {
                let mut it = l.rsplitn(2, ' ');
                let v = it.next().unwrap().parse::<u128>().expect("value");
                m.insert(it.next().unwrap().to_string(), v);
            }
            (HashMap::new(), m)
        });
        let c = st.0.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, c);
        *c += 1;
        st.1.get(&full).copied().unwrap_or(lo)
    }
    pub fn sym(name: &str, _bits: u32, lo: u128, _hi: u128) -> u128 { get(name, lo) }
    pub fn choose(name: &str, _n: usize) -> usize { get(name, 0) as usize }
    pub fn assume(c: bool) { if !c { println!("REPLAY-ASSUME"); std::process::exit(0) } }
    pub fn check(c: bool, msg: &str) { if !c { println!("REPLAY-ASSERT {}", msg); std::process::exit(9) } }
    pub fn cover(_msg: &str) {}
    pub fn merge(_on: bool) {}
    pub fn merge_parsing() {}
    pub fn panics_ok(on: bool) { if on { std::panic::set_hook(Box::new(|_| { println!("REPLAY-TOLERATED"); std::process::exit(0) })) } else { let _ = std::panic::take_hook(); } }
    pub fn end() -> ! { println!("REPLAY-END"); std::process::exit(0) }
    pub fn symbolic() -> bool { false }
    pub fn token(_v: u128, _bits: u32) -> u64 { 0 }
    pub fn token_value(_id: u64) -> (u128, u32) { (0, 0) }
    pub fn concrete(a: u64) -> u64 { a }
    pub fn dbg(m: &str, v: u64) { eprintln!("[dbg] {} = {}", m, v) }
}
pub mod html;
#[cfg(not(feature = "replay"))]
pub mod ovr;
pub mod world;
pub mod text;
pub use imp::*;
pub fn u128s(name: &str, lo: u128, hi: u128) -> u128 { sym(name, 128, lo, hi) }
pub fn u128a(name: &str) -> u128 { sym(name, 128, 0, u128::MAX) }
pub fn u64s(name: &str, lo: u64, hi: u64) -> u64 { sym(name, 64, lo as u128, hi as u128) as u64 }
pub fn u32s(name: &str, lo: u32, hi: u32) -> u32 { sym(name, 32, lo as u128, hi as u128) as u32 }
pub fn u8s(name: &str, lo: u8, hi: u8) -> u8 { sym(name, 8, lo as u128, hi as u128) as u8 }
pub fn boolean(name: &str) -> bool { sym(name, 8, 0, 1) as u8 != 0 }
pub fn u16s(name: &str, lo: u16, hi: u16) -> u16 { sym(name, 16, lo as u128, hi as u128) as u16 }
