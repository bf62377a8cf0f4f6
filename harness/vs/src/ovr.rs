//! Replacements used during symbolic execution only: a symbolic number is printed as a token which the
//! harness can map back to the number. Constants are printed by the real code.
//!   integer:  ~NNNNN~         float: ~NNNNNf[p<precision>][+]~
use std::fmt::{Formatter, Result, Write};
fn put_id(id: u64, out: &mut [u8; 16]) -> usize {
    let mut k = id;
    out[0] = b'~';
    for i in 0..5 { out[5 - i] = b'0' + (k % 10) as u8; k /= 10; }
    6
}
fn int(v: u128, bits: u32, nonneg: bool, f: &mut Formatter) -> Result {
    let id = crate::token(v, bits);
    let mut b = [0u8; 16];
    let n = put_id(id, &mut b);
    b[n] = b'~';
    f.pad_integral(nonneg, "", unsafe { std::str::from_utf8_unchecked(&b[..n + 1]) })
}
#[export_name = "ovrsym0:core::fmt::num::fmt_u128"]
pub fn o_u128(n: u128, nonneg: bool, f: &mut Formatter) -> Result { int(n, 128, nonneg, f) }
#[export_name = "ovrptr0_8:core::fmt::num::imp::_<impl core::fmt::Display for u64>::fmt"]
pub fn o_u64(n: &u64, f: &mut Formatter) -> Result { int(*n as u128, 64, true, f) }
#[export_name = "ovrptr0_8:core::fmt::num::imp::_<impl core::fmt::Display for usize>::fmt"]
pub fn o_usize(n: &u64, f: &mut Formatter) -> Result { int(*n as u128, 64, true, f) }
#[export_name = "ovrptr0_4:core::fmt::num::imp::_<impl core::fmt::Display for u32>::fmt"]
pub fn o_u32(n: &u32, f: &mut Formatter) -> Result { int(*n as u128, 32, true, f) }
#[export_name = "ovrptr0_2:core::fmt::num::imp::_<impl core::fmt::Display for u16>::fmt"]
pub fn o_u16(n: &u16, f: &mut Formatter) -> Result { int(*n as u128, 16, true, f) }
#[export_name = "ovrptr0_1:core::fmt::num::imp::_<impl core::fmt::Display for u8>::fmt"]
pub fn o_u8(n: &u8, f: &mut Formatter) -> Result { int(*n as u128, 8, true, f) }
fn float(v: f64, f: &mut Formatter) -> Result {
    let id = crate::token(v.to_bits() as u128, 64);
    let mut b = [0u8; 16];
    let n = put_id(id, &mut b);
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) })?;
    f.write_char('f')?;
    if let Some(p) = f.precision() { f.write_char('p')?; f.write_char((b'0' + p as u8) as char)?; }
    if f.sign_plus() { f.write_char('+')?; }
    f.write_char('~')
}
#[export_name = "ovrptr0_8:core::fmt::float::_<impl core::fmt::Display for f64>::fmt"]
pub fn o_f64(n: &f64, f: &mut Formatter) -> Result { float(*n, f) }
#[export_name = "ovrptr0_8:core::fmt::float::_<impl core::fmt::Debug for f64>::fmt"]
pub fn o_f64d(n: &f64, f: &mut Formatter) -> Result { float(*n, f) }
