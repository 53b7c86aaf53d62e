//! Finding the entry point, and reading it.
use crate::{mk, rf, sp};
use dmidecode::*;
/// The first anchor anywhere.
pub fn any(buf: &[u8]) {
    mk::assume(buf.len() < 0xffff_ffff_ffff);
    let r = EntryPoint::search(buf);
    match rf::anchor(buf) {
        None => mk::check("a.none", matches!(r, Err(InvalidEntryPointError::NotFound))),
        Some((o, g)) => {
            mk::check("a.some", !matches!(r, Err(InvalidEntryPointError::NotFound)));
            sp::entry(r, &buf[o..], g == 2);
        }
    }
}
/// The accessors report the fields of whichever generation it is.
pub fn access(e: EntryPoint) {
    match e {
        EntryPoint::V2(p) => {
            mk::check("x.len", e.len() == p.len);
            mk::check("x.major", e.major() == p.major);
            mk::check("x.minor", e.minor() == p.minor);
            mk::check("x.revision", e.revision() == p.revision);
            mk::check("x.address", e.smbios_address() == p.smbios_address as u64);
            mk::check("x.smbios_len", e.smbios_len() == p.smbios_len as u32);
        }
        EntryPoint::V3(p) => {
            mk::check("x.len", e.len() == p.len);
            mk::check("x.major", e.major() == p.major);
            mk::check("x.minor", e.minor() == p.minor);
            mk::check("x.revision", e.revision() == p.revision);
            mk::check("x.address", e.smbios_address() == p.smbios_address);
            mk::check("x.smbios_len", e.smbios_len() == p.smbios_len_max);
        }
    }
    let v = e.to_version();
    mk::check("x.version", v.major == e.major() && v.minor == e.minor());
}
/// Versions compare by major number first, and conversion keeps both parts.
pub fn version(a: SmbiosVersion, b: SmbiosVersion, x: u8, y: u8) {
    let (p, q) = ((a.major as u16) << 8 | a.minor as u16, (b.major as u16) << 8 | b.minor as u16);
    mk::check("x.lt", (a < b) == (p < q));
    mk::check("x.le", (a <= b) == (p <= q));
    mk::check("x.gt", (a > b) == (p > q));
    mk::check("x.ge", (a >= b) == (p >= q));
    mk::check("x.eq", (a == b) == (p == q));
    let o = if p < q { core::cmp::Ordering::Less } else if p > q { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal };
    mk::check("x.cmp", a.cmp(&b) == o);
    mk::check("x.partial", a.partial_cmp(&b) == Some(o));
    mk::check("x.max", a.max(b) == if p < q { b } else { a });
    mk::check("x.min", a.min(b) == if q < p { b } else { a });
    let v = SmbiosVersion::from((x as usize, y as usize));
    mk::check("x.from", v.major == x && v.minor == y);
}
