//! Small inputs, loops unrolled: these do not depend on how a loop can be summarised.
use crate::{mk, rf, sp, sp::{walked, many, kth, all}};
use dmidecode::*;
/// One step over a table of at most sixteen bytes.
pub fn walk(buf: &[u8], ep: EntryPointV3) {
    mk::cut_strings();
    mk::unroll(40);
    mk::assume(buf.len() <= 16);
    let len = ep.smbios_len_max as usize;
    let limit = if len < buf.len() { len } else { buf.len() };
    let mut s = EntryPoint::V3(ep).structures(buf);
    sp::step(buf, &ep, limit, 0, s.next());
}
/// Three steps, the first over a raw structure, with the table ending at various places.
pub fn walk2(ep: EntryPointV3) { walked(ep, 18); }
pub fn walk3(ep: EntryPointV3) { walked(ep, 16); }
pub fn walk4(ep: EntryPointV3) { walked(ep, 13); }
/// Each string of a small area by its number.
pub fn find(ep: EntryPointV3, k: u8) {
    mk::unroll(40);
    mk::assume(k < 6);
    let mut n = 6;
    while n <= 13 {
        let buf = mk::buffer(n, 2, 0x04_80);
        if ep.smbios_len_max as usize >= n && rf::table_len(&buf[4..]).is_some() {
            if let Some(Ok(Structure::Other(x))) = EntryPoint::V3(ep).structures(buf).next() {
                sp::found(buf, k, x.find_string(k));
            }
        }
        n += 1;
    }
}
/// A number beyond every string of a small area is answered with an error that names it.
pub fn find_high(ep: EntryPointV3, k: u8) {
    mk::unroll(40);
    mk::assume(k >= 6);
    let mut n = 6;
    while n <= 9 {
        let buf = mk::buffer(n, 2, 0x04_80);
        if ep.smbios_len_max as usize >= n && rf::table_len(&buf[4..]).is_some() {
            if let Some(Ok(Structure::Other(x))) = EntryPoint::V3(ep).structures(buf).next() {
                mk::check("s.high", matches!(x.find_string(k), Err(MalformedStructureError::InvalidStringIndex(i, h, n)) if i == InfoType::Oem(128) && h == sp::w(buf, 2) && n == k));
            }
        }
        n += 1;
    }
}
/// The strings of a small area one after the other.
pub fn oem(ep: EntryPointV3) {
    mk::unroll(40);
    let mut n = 7;
    while n <= 15 {
        let buf = mk::buffer(n, 2, 0x05_0b);
        if ep.smbios_len_max as usize >= n {
            if let Some(t) = rf::table_len(&buf[5..]) {
                match EntryPoint::V3(ep).structures(buf).next() {
                    Some(Ok(Structure::OemStrings(x))) => sp::list(&buf[5..5 + t], x.strings),
                    Some(Err(MalformedStructureError::InvalidStringIndex(..))) => {}
                    _ => mk::check("v.kind", false),
                }
            }
        }
        n += 1;
    }
}
pub fn options(ep: EntryPointV3) {
    mk::unroll(40);
    let mut n = 7;
    while n <= 15 {
        let buf = mk::buffer(n, 2, 0x05_0c);
        if ep.smbios_len_max as usize >= n {
            if let Some(t) = rf::table_len(&buf[5..]) {
                match EntryPoint::V3(ep).structures(buf).next() {
                    Some(Ok(Structure::SystemConfigurationOptions(x))) => sp::list(&buf[5..5 + t], x.strings),
                    Some(Err(MalformedStructureError::InvalidStringIndex(..))) => {}
                    _ => mk::check("v.kind", false),
                }
            }
        }
        n += 1;
    }
}
/// The installable languages are the strings in order.
pub fn languages(ep: EntryPointV3) {
    mk::unroll(40);
    let mut n = 24;
    while n <= 31 {
        let buf = mk::buffer(n, 2, 0x16_0d);
        if ep.smbios_len_max as usize >= n {
            if let Some(t) = rf::table_len(&buf[22..]) {
                match EntryPoint::V3(ep).structures(buf).next() {
                    Some(Ok(Structure::BiosLanguage(x))) => sp::list(&buf[22..22 + t], x.installable_languages),
                    _ => mk::check("v.kind", false),
                }
            }
        }
        n += 1;
    }
}
/// An entry point anywhere in a small buffer.
pub fn search(buf: &[u8]) {
    mk::unroll(120);
    mk::assume(buf.len() <= 56);
    let r = EntryPoint::search(buf);
    match rf::anchor(buf) {
        None => mk::check("a.none", matches!(r, Err(InvalidEntryPointError::NotFound))),
        Some((o, g)) => {
            mk::check("a.some", !matches!(r, Err(InvalidEntryPointError::NotFound)));
            sp::entry(r, &buf[o..], g == 2);
        }
    }
}
macro_rules! find_many { ($($n:ident $k:literal),*) => { $(
    /// One string of very many.
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(700);
        ep.smbios_len_max = 2000;
        let b = many(4, 0x80, 200);
        if let Some(Ok(Structure::Other(x))) = EntryPoint::V3(ep).structures(b).next() {
            match x.find_string($k) {
                Ok(s) => mk::check("s.many", $k <= 200 && kth(b, 4, $k, s)),
                Err(MalformedStructureError::InvalidStringIndex(i, h, n)) => mk::check("s.many.error", $k > 200 && n == $k && i == InfoType::Oem(128) && h == sp::w(b, 2)),
                Err(_) => mk::check("s.many.kind", false),
            }
        }
    }
)* } }
find_many!(find_many_9 9, find_many_33 33, find_many_65 65, find_many_128 128, find_many_129 129, find_many_200 200, find_many_201 201, find_many_255 255);
pub fn oem_many(mut ep: EntryPointV3) {
    mk::unroll(700);
    ep.smbios_len_max = 2000;
    let b = many(5, 11, 300);
    if let Some(Ok(Structure::OemStrings(x))) = EntryPoint::V3(ep).structures(b).next() { all(b, 5, 300, x.strings); }
}
pub fn options_many(mut ep: EntryPointV3) {
    mk::unroll(700);
    ep.smbios_len_max = 2000;
    let b = many(5, 12, 255);
    mk::fix(b, 4, 255);
    match EntryPoint::V3(ep).structures(b).next() {
        Some(Ok(Structure::SystemConfigurationOptions(x))) => all(b, 5, 255, x.strings),
        _ => mk::check("s.many.options", false),
    }
}
pub fn options_more(mut ep: EntryPointV3) {
    mk::unroll(700);
    ep.smbios_len_max = 2000;
    let b = many(5, 12, 257);
    mk::fix(b, 4, 1);
    mk::check("s.many.more", matches!(EntryPoint::V3(ep).structures(b).next(), Some(Err(MalformedStructureError::InvalidStringIndex(..)))));
}
pub fn languages_many(mut ep: EntryPointV3) {
    mk::unroll(700);
    ep.smbios_len_max = 2000;
    let b = many(22, 13, 70);
    if let Some(Ok(Structure::BiosLanguage(x))) = EntryPoint::V3(ep).structures(b).next() { all(b, 22, 70, x.installable_languages); }
}
