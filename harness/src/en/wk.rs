//! The walk over the structure table.
use crate::{fr, mk, rf, rt, sp};
use dmidecode::*;
/// Any number of steps over an arbitrary table, then one more, whose outcome the bytes determine.
pub fn many(buf: &[u8], ep: EntryPointV3, n: usize) {
    mk::cut_strings();
    mk::assume(buf.len() < 0xffff_ffff);
    let len = ep.smbios_len_max as usize;
    let limit = if len < buf.len() { len } else { buf.len() };
    let mut s = EntryPoint::V3(ep).structures(buf);
    let mut pos = 0usize;
    let mut k = 0;
    while k < n {
        match s.next() {
            None | Some(Err(MalformedStructureError::BadSize(..) | MalformedStructureError::UnterminatedStrings(_))) => return,
            _ => {}
        }
        if ep.major >= 3 && buf[pos] == 127 { return; }
        let l = buf[pos + 1] as usize;
        match rf::table_len(&buf[pos + l..]) {
            Some(t) => pos += l + t,
            None => return,
        }
        k += 1;
    }
    let last = sp::step(buf, &ep, limit, pos, s.next());
    if last {
        mk::check("w.ended", s.next().is_none());
        mk::check("w.ended.still", s.next().is_none());
    }
}
/// A complete walk ends.
pub fn all(buf: &[u8], ep: EntryPoint) {
    mk::cut_strings();
    let mut s = ep.structures(buf);
    while let Some(_) = s.next() {}
    mk::check("w.stays", s.next().is_none());
}
/// The structure handed out is the one its type code names, and nothing is decoded as something else.
pub fn kind(buf: &[u8], ep: EntryPointV3) {
    mk::cut_strings();
    let r = fr::whole(buf, ep);
    let k = buf[0];
    let info = rt::root::InfoType_u8(k);
    let raw = sp::raw(k);
    match r {
        None => mk::check("k.some", false),
        Some(Ok(s)) => {
            mk::check("k.variant", sp::code(&s) == if raw { 255 } else { k as usize });
            if let Structure::Other(x) = s {
                mk::check("k.raw", raw);
                mk::check("k.info", x.info == info);
                mk::check("k.length", x.length == buf[1]);
                mk::check("k.handle", x.handle == sp::w(buf, 2));
                mk::check("k.version", x.version.major == ep.major && x.version.minor == ep.minor);
                mk::check("k.data", mk::offset(x.data, buf) == 4 && x.data.len() == buf[1] as usize - 4);
            }
        }
        Some(Err(e)) => {
            mk::check("k.error", !raw);
            match e {
                MalformedStructureError::InvalidStringIndex(i, h, _) => mk::check("k.error.which", i == info && h == sp::w(buf, 2)),
                MalformedStructureError::InvalidFormattedSectionLength(i, h, _, _) => mk::check("k.error.which", i == info && h == sp::w(buf, 2)),
                MalformedStructureError::InvalidSlice(_) => {}
                _ => mk::check("k.error.framing", false),
            }
        }
    }
}
/// Values of a raw structure by their specified offset.
pub fn get(buf: &[u8], ep: EntryPointV3, o: usize, n: usize) {
    if let Some(Ok(Structure::Other(x))) = fr::first(buf, ep, 128) {
        let l = buf[1] as usize;
        let b = x.get::<u8>(o);
        let c = o >= 4 && o < l;
        mk::check("g.byte", b.is_ok() == c);
        if let (Ok(v), true) = (b, c) { mk::check("g.byte.value", v == buf[o]); }
        let b = x.get::<u16>(o);
        let c = o >= 4 && o < l && l - o >= 2;
        mk::check("g.word", b.is_ok() == c);
        if let (Ok(v), true) = (b, c) { mk::check("g.word.value", v == sp::w(buf, o)); }
        let b = x.get::<u32>(o);
        let c = o >= 4 && o < l && l - o >= 4;
        mk::check("g.dword", b.is_ok() == c);
        if let (Ok(v), true) = (b, c) { mk::check("g.dword.value", v == sp::d(buf, o)); }
        let b = x.get::<u64>(o);
        let c = o >= 4 && o < l && l - o >= 8;
        mk::check("g.qword", b.is_ok() == c);
        if let (Ok(v), true) = (b, c) { mk::check("g.qword.value", v == sp::q(buf, o)); }
        let b = x.get::<u128>(o);
        let c = o >= 4 && o < l && l - o >= 16;
        mk::check("g.oword", b.is_ok() == c);
        if let (Ok(v), true) = (b, c) { mk::check("g.oword.value", v as u64 == sp::q(buf, o) && (v >> 64) as u64 == sp::q(buf, o + 8)); }
        let b = x.get_slice(o, n);
        let c = o >= 4 && o <= l && n <= l - o;
        mk::check("g.slice", b.is_some() == c);
        if let (Some(v), true) = (b, c) { mk::check("g.slice.place", v.len() == n && mk::offset(v, buf) == o); }
    }
}
