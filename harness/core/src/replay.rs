//! Native replay of a counterexample: `replay PROP` with VS_MODEL naming the model file.
macro_rules! props { ($($f:path),* $(,)?) => { fn find(n: &str) -> Option<extern "C" fn()> { $( if n == stringify!($f).rsplit("::").next().unwrap().trim() { return Some($f) } )* None } } }
include!(concat!(env!("OUT_DIR"), "/props.rs"));
fn main() {
    let n = std::env::args().nth(1).expect("property");
    find(&n).expect("unknown property")();
    println!("REPLAY-OK");
}
