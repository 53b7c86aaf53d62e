//! Framing assumptions shared by the per-structure entries: a table whose first structure is well
//! formed and has the given type code. (What happens otherwise is decided by the framing entries.)
use crate::{mk, rf};
use dmidecode::*;
pub fn framed<'a>(buf: &'a [u8], ep: EntryPointV3, kind: u8) -> Option<Result<Structure<'a>, MalformedStructureError>> {
    mk::assume(ep.major >= 2);
    mk::assume(buf.len() >= 4 && buf.len() < 0xffff_ffff);
    mk::assume(buf[0] == kind);
    whole(buf, ep)
}
/// As above, with any type code.
pub fn whole<'a>(buf: &'a [u8], ep: EntryPointV3) -> Option<Result<Structure<'a>, MalformedStructureError>> {
    mk::assume(ep.major >= 2);
    mk::assume(buf.len() >= 4 && buf.len() < 0xffff_ffff);
    mk::assume(ep.smbios_len_max as usize > buf.len());
    let l = buf[1] as usize;
    mk::assume(l >= 4 && l < buf.len());
    mk::assume(rf::table_len(&buf[l..]).is_some());
    EntryPoint::V3(ep).structures(buf).next()
}
pub fn first<'a>(buf: &'a [u8], ep: EntryPointV3, kind: u8) -> Option<Result<Structure<'a>, MalformedStructureError>> {
    mk::cut_strings();
    framed(buf, ep, kind)
}
