//! Replacements used during symbolic execution only.
use sailfish::runtime::{escape::escape_to_buf, Buffer, RenderError};
/// Vector instructions are not executed: long texts are escaped in short pieces, by the real code.
#[export_name = "ovr:sailfish::runtime::escape::escape_to_buf::detect"]
pub fn escape(mut s: &str, b: &mut Buffer) {
    while !s.is_empty() {
        let mut n = s.len().min(12);
        while !s.is_char_boundary(n) { n -= 1 }
        escape_to_buf(&s[..n], b);
        s = &s[n..];
    }
}
/// Any fixed hash is a valid one.
#[export_name = "ovr:_<ahash::fallback_hash::AHasher as core::hash::Hasher>::finish"]
pub fn finish(_s: *const u8) -> u64 { 0x0123456789abcdef }
// Numbers: printed by the standard library, since the real code uses vector instructions.
#[export_name = "ovr:_<i128 as sailfish::runtime::render::Render>::render"]
pub fn render_i128(v: &i128, b: &mut Buffer) -> Result<(), RenderError> { b.push_str(&format!("{}", v)); Ok(()) }
#[export_name = "ovr:_<u128 as sailfish::runtime::render::Render>::render"]
pub fn render_u128(v: &u128, b: &mut Buffer) -> Result<(), RenderError> { b.push_str(&format!("{}", v)); Ok(()) }
#[export_name = "ovr:_<u32 as sailfish::runtime::render::Render>::render"]
pub fn render_u32(v: &u32, b: &mut Buffer) -> Result<(), RenderError> { b.push_str(&format!("{}", v)); Ok(()) }
#[export_name = "ovr:std::thread::available_parallelism"]
pub fn parallelism() -> std::io::Result<std::num::NonZeroUsize> { Ok(std::num::NonZeroUsize::MIN) }
