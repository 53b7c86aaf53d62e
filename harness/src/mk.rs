//! Markers understood by the analyser. Their bodies are never analysed.
use core::fmt;
pub struct Text(#[allow(dead_code)] u64);
#[inline(never)]
pub fn assume(_c: bool) {}
#[inline(never)]
pub fn check(_name: &'static str, _c: bool) {}
#[inline(never)]
pub fn check_eq<T: ?Sized>(_name: &'static str, _a: &T, _b: &T) {}
#[inline(never)]
pub fn same<T>(_a: &T, _b: &T) -> bool { true }
#[inline(never)]
pub fn reach(_name: &'static str) {}
#[inline(never)]
pub fn text<T: fmt::Display + ?Sized>(_t: &T) -> Text { Text(0) }
#[inline(never)]
pub fn debug<T: fmt::Debug + ?Sized>(_t: &T) -> Text { Text(0) }
#[inline(never)]
pub fn textf(_t: fmt::Arguments<'_>) -> Text { Text(0) }
#[inline(never)]
pub fn text_eq(_a: Text, _b: Text) -> bool { true }
#[inline(never)]
pub fn within(_a: &[u8], _b: &[u8]) -> bool { true }
#[inline(never)]
pub fn offset(_a: &[u8], _b: &[u8]) -> usize { 0 }
#[inline(never)]
pub fn is_utf8(_a: &[u8]) -> bool { true }
#[inline(never)]
pub fn str(_a: &[u8]) -> &str { "" }
#[inline(never)]
pub fn trace<T>(_name: &'static str, _a: &T) {}
#[inline(never)]
pub fn cut_strings() {}
#[inline(never)]
pub fn nth_string(_k: u8) -> Option<&'static str> { None }
/// From here on loops are unrolled as long as they can go on, up to that many times.
#[inline(never)]
pub fn unroll(_n: usize) {}
/// A buffer of `n` bytes, of which the first `k` are those of `v` and the others arbitrary.
#[inline(never)]
pub fn buffer(_n: usize, _k: usize, _v: u64) -> &'static [u8] { &[] }
/// A byte of an input buffer has that value (to be stated before anything looks at the buffer).
#[inline(never)]
pub fn fix(_b: &[u8], _at: usize, _v: u8) {}
