//! String references.
use crate::{fr, mk, rf, sp};
use dmidecode::*;
/// find_string for every index.
pub fn find(buf: &[u8], ep: EntryPointV3, k: u8) {
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) {
        sp::found(buf, k, x.find_string(k));
    }
}
pub fn find_0(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) { sp::found(buf, 0, x.find_string(0)); }
}
pub fn find_1(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) { sp::found(buf, 1, x.find_string(1)); }
}
pub fn find_2(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) { sp::found(buf, 2, x.find_string(2)); }
}
pub fn find_3(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) { sp::found(buf, 3, x.find_string(3)); }
}
/// A string by the offset of its number.
pub fn at(buf: &[u8], ep: EntryPointV3, o: usize) {
    mk::cut_strings();
    if let Some(Ok(Structure::Other(x))) = fr::framed(buf, ep, 128) {
        let l = buf[1] as usize;
        match x.get_string(o) {
            Ok(s) => {
                mk::check("s.at.inside", o >= 4 && o < l);
                if o >= 4 && o < l { mk::check_eq("s.at.string", s, sp::st(buf, o)); }
            }
            Err(MalformedStructureError::InvalidSlice(_)) => mk::check("s.at.outside", o < 4 || o >= l),
            Err(MalformedStructureError::InvalidStringIndex(i, h, n)) => {
                mk::check("s.at.error", o >= 4 && o < l && buf[o] == n && !sp::ok(n) && i == InfoType::Oem(128) && h == sp::w(buf, 2));
            }
            Err(_) => mk::check("s.at.other", false),
        }
    }
}
/// The list of OEM strings, after any number of steps.
pub fn oem(buf: &[u8], ep: EntryPointV3, n: usize) {
    if let Some(Ok(Structure::OemStrings(x))) = fr::framed(buf, ep, 11) {
        let l = buf[1] as usize;
        sp::strings(&buf[l..l + rf::table_len(&buf[l..]).unwrap()], x.strings, n);
    }
}
/// The list of configuration strings, after any number of steps.
pub fn options(buf: &[u8], ep: EntryPointV3, n: usize) {
    match fr::framed(buf, ep, 12) {
        Some(Ok(Structure::SystemConfigurationOptions(x))) => {
            let l = buf[1] as usize;
            mk::check("f.handle", x.handle == sp::w(buf, 2));
            mk::check("e.accepted", l > 4);
            sp::strings(&buf[l..l + rf::table_len(&buf[l..]).unwrap()], x.strings, n);
        }
        Some(Err(MalformedStructureError::InvalidSlice(_))) => mk::check("e.short", buf[1] < 5),
        Some(Err(MalformedStructureError::InvalidStringIndex(i, h, n))) => {
            mk::check("e.count", buf[1] > 4 && n == buf[4] && h == sp::w(buf, 2) && i == InfoType::SystemConfigurationOptions);
        }
        _ => mk::check("v.kind", false),
    }
}
