//! Reference implementations used in place of `core`'s specialised ones, and anchors for trait calls.
use core::fmt;
pub fn fmt_unit(_f: &mut fmt::Formatter<'_>) {}
pub fn fmt_display<T: fmt::Display + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(t, f) }
pub fn fmt_debug<T: fmt::Debug + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(t, f) }
pub fn fmt_lower_hex<T: fmt::LowerHex + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(t, f) }
pub fn fmt_upper_hex<T: fmt::UpperHex + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperHex::fmt(t, f) }
pub fn fmt_binary<T: fmt::Binary + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Binary::fmt(t, f) }
pub fn fmt_octal<T: fmt::Octal + ?Sized>(t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Octal::fmt(t, f) }
pub fn debug_entries<D: fmt::Debug, I: IntoIterator<Item = D>>(i: I, f: &mut fmt::Formatter<'_>) {
    let mut first = true;
    for x in i {
        if !first {
            let _ = f.write_str(", ");
        }
        first = false;
        let _ = fmt::Debug::fmt(&x, f);
    }
}
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn ascii(text: &[u8]) -> bool {
    let mut i = 0;
    while i < text.len() {
        if text[i] > 127 {
            return false;
        }
        i += 1;
    }
    true
}
pub fn nth<I: Iterator + ?Sized>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = 0;
    while k < n {
        if it.next().is_none() {
            return None;
        }
        k += 1;
    }
    it.next()
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut k = 0;
    while let Some(_) = it.next() {
        k += 1;
    }
    k
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn any<I: Iterator + ?Sized, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator + ?Sized, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: Iterator + ?Sized, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator + ?Sized, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn position<I: Iterator + ?Sized, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut k = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(k);
        }
        k += 1;
    }
    None
}
/// Stands for `RawStructure::find_string` where strings are left uninterpreted (its own behaviour is
/// decided separately).
pub fn cut_find_string(raw: &dmidecode::RawStructure<'_>, idx: u8) -> Result<&'static str, dmidecode::MalformedStructureError> {
    if idx == 0 {
        Ok("")
    } else {
        match crate::mk::nth_string(idx) {
            Some(s) => Ok(s),
            None => Err(dmidecode::MalformedStructureError::InvalidStringIndex(raw.info, raw.handle, idx)),
        }
    }
}
