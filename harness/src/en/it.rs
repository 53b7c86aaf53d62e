//! However an iteration is driven (steps, skipping, counting, from a copy), the same items come out.
use crate::{mk, sp::*};
use dmidecode::bitfield::BitField;
use dmidecode::*;
pub fn walk(mut ep: EntryPointV3) {
    mk::unroll(300);
    let at = [(0x80, 4, 0), (0x85, 9, 2), (0xff, 5, 1), (127, 4, 0), (0x81, 4, 0)];
    let b = table(framed(&at), &at);
    ep.smbios_len_max = b.len() as u32;
    mk::assume(ep.major >= 3);
    driven(EntryPoint::V3(ep).structures(b), 4);
}
pub fn walk_2(mut old: EntryPointV2) {
    mk::unroll(300);
    let at = [(0x80, 4, 0), (127, 4, 0), (0xff, 5, 1)];
    let b = table(framed(&at), &at);
    old.smbios_len = b.len() as u16;
    mk::assume(old.major == 2);
    driven(EntryPoint::V2(old).structures(b), 3);
}
pub fn walk_bad(mut ep: EntryPointV3) {
    mk::unroll(300);
    let at = [(0x80, 4, 0), (0x81, 6, 2)];
    let b = table(framed(&at) + 9, &at);
    tail(b, framed(&at), 3);
    ep.smbios_len_max = b.len() as u32;
    driven(EntryPoint::V3(ep).structures(b), 3);
}
macro_rules! lists { ($($n:ident $k:literal $l:literal [$($o:literal $v:literal),*] $count:literal $kind:ident $x:ident $field:expr),* $(,)?) => { $(
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(300);
        let b = plain($k, $l);
        $(mk::fix(b, $o, $v);)*
        ep.smbios_len_max = b.len() as u32;
        ep.major = 3;
        ep.minor = 4;
        if let Some(Ok(Structure::$kind($x))) = EntryPoint::V3(ep).structures(b).next() {
            match $field {
                Some(it) => driven(it, $count),
                None => mk::check("i.list", false),
            }
        }
    }
)* } }
lists!(
    group 14 0x0e [4 0] 3 GroupAssociations x Some(x.items),
    group_odd 14 0x0d [4 0] 2 GroupAssociations x Some(x.items),
    group_none 14 0x05 [4 0] 0 GroupAssociations x Some(x.items),
    peers 9 0x22 [4 0, 0x12 3] 3 SystemSlots x x.peer_devices,
    peers_none 9 0x13 [4 0, 0x12 0] 0 SystemSlots x x.peer_devices,
    events 15 0x1d [0x15 3, 0x16 2] 3 SystemEventLog x x.supported_event_log_type_descriptors,
    events_none 15 0x17 [0x15 0, 0x16 2] 0 SystemEventLog x x.supported_event_log_type_descriptors,
    elements 3 0x1e [4 0, 6 0, 7 0, 8 0, 0x13 3, 0x14 3] 3 Enclosure x x.contained_elements,
    elements_wide 3 0x1d [4 0, 6 0, 7 0, 8 0, 0x13 2, 0x14 4] 2 Enclosure x x.contained_elements,
);
macro_rules! texts { ($($n:ident $k:literal $l:literal $kind:ident $field:ident),* $(,)?) => { $(
    pub fn $n(mut ep: EntryPointV3) {
        mk::unroll(300);
        let b = many($l, $k, 3);
        mk::fix(b, 4, 3);
        ep.smbios_len_max = b.len() as u32;
        match EntryPoint::V3(ep).structures(b).next() {
            Some(Ok(Structure::$kind(x))) => driven(x.$field, 3),
            _ => mk::check("i.list", false),
        }
    }
)* } }
texts!(oem 11 5 OemStrings strings, options 12 5 SystemConfigurationOptions strings, languages 13 22 BiosLanguage installable_languages);
pub fn bits_status(c: system_event_log::LogStatus) {
    mk::unroll(300);
    driven(c.iter(), 8);
    driven(c.reserved(), 1);
    driven(c.significants(), (c.value() & 1 != 0) as usize + (c.value() & 2 != 0) as usize);
}
pub fn bits_bios(c: bios::Characteristics) {
    mk::unroll(300);
    driven(c.iter(), 64);
    driven(c.reserved(), 2);
}
pub fn bits_slot(c: system_slots::SlotCharacteristics2) {
    mk::unroll(300);
    driven(c.iter(), 8);
    driven(c.reserved(), 1);
}
