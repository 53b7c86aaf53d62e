//! Quantities computed from stored values.
use crate::{mk, sp};
use dmidecode::bitfield::BitField;
use dmidecode::*;
/// Size of the BIOS device in bytes.
pub fn rom_size(r: bios::RomSize) {
    let v = u64::from(r);
    if r.basic != 0xff {
        mk::check("q.rom.basic", v == (r.basic as u64 + 1) * 65536);
    } else {
        match r.extended {
            Some(x) if x >> 14 == 0 => mk::check("q.rom.mega", v == (x as u64 & 0x3fff) * 1048576),
            Some(x) if x >> 14 == 1 => mk::check("q.rom.giga", v == (x as u64 & 0x3fff) * 1073741824),
            _ => mk::check("q.rom.unknown", v == 16 * 1048576),
        }
    }
}
pub fn cache_size(x: u16) {
    let v = cache::CacheSize::from(x);
    mk::check_eq("q.cache.size", &v, &sp::size(x));
    let n = (x & 0x7fff) as u64;
    mk::check("q.cache.bytes", v.bytes() == if x & 0x8000 == 0 { n * 1024 } else { n * 65536 });
}
pub fn cache_size_any(v: cache::CacheSize) {
    mk::check("q.cache.bytes", v.bytes() == match v { cache::CacheSize::Granularity1K(n) => n as u64 * 1024, cache::CacheSize::Granularity64K(n) => n as u64 * 65536 });
}
pub fn cache_size_2(x: u32) {
    let v = cache::CacheSize2::from(x);
    mk::check_eq("q.cache2.size", &v, &sp::size2(x));
    let n = (x & 0x7fff_ffff) as u64;
    mk::check("q.cache2.bytes", v.bytes() == if x & 0x8000_0000 == 0 { n * 1024 } else { n * 65536 });
}
pub fn cache_size_2_any(v: cache::CacheSize2) {
    mk::check("q.cache2.bytes", v.bytes() == match v { cache::CacheSize2::Granularity1K(n) => n as u64 * 1024, cache::CacheSize2::Granularity64K(n) => n as u64 * 65536 });
}
pub fn capacity(d: portable_battery::DesignCapacity) {
    use portable_battery::DesignCapacity::*;
    let v = u64::from(d);
    match d {
        Unknown => mk::check("q.capacity.unknown", v == 0),
        Data { value, multiplier } => mk::check("q.capacity", v == value as u64 * multiplier as u64),
    }
}
/// Where the event log is, by access method.
pub fn access(method: u8, address: u32) {
    let a = system_event_log::AccessMethod::new(method, address);
    mk::check_eq("q.access", &a, &sp::access(method, address));
    // I/O methods have an 8-bit data port; only the low handle word counts for GPNV
    let want = if method == 0 { address & 0x00ff_00ff } else if method <= 2 { address & 0x00ff_ffff } else if method == 4 { address & 0xffff } else { address };
    mk::check("q.access.address", a.address() == want);
}
pub fn access_any(a: system_event_log::AccessMethod) {
    use system_event_log::AccessMethod::*;
    let want = match a {
        IndexedIoOne8bitIndexOne8bitData { index, data } => index as u32 | (data as u32) << 16,
        IndexedIoTwo8bitIndexOne8bitData { index, data } => index[0] as u32 | (index[1] as u32) << 8 | (data as u32) << 16,
        IndexedIoOne16bitIndexOne8bitData { index, data } => index as u32 | (data as u32) << 16,
        MemoryMappedPhysicaAddress { physical_address } => physical_address,
        GeneralPurposeNonVolatileData { gpnv_handle } => gpnv_handle as u32,
        OemSpecific { address, .. } => address,
        Available { address, .. } => address,
    };
    mk::check("q.access.address", a.address() == want);
}
pub fn voltage(x: u8) {
    use processor::*;
    let v = Voltage::from(x);
    mk::check("q.voltage.current", matches!(v, Voltage::Current(n) if n == x & 0x7f) == (x & 0x80 != 0));
    mk::check("q.voltage.legacy", matches!(&v, Voltage::Legacy(n) if n.bits() == x) == (x < 8));
    mk::check("q.voltage.undefined", matches!(&v, Voltage::Undefined(n) if *n == x) == (x >= 8 && x < 0x80));
}
pub fn element_type(x: u8) {
    use enclosure::ContainedElementType as T;
    match T::from(x) {
        T::BoardType(b) => mk::check("q.element.board", x & 0x80 == 0 && b == crate::rt::baseboard::BoardType_u8(x & 0x7f)),
        T::InfoType(i) => mk::check("q.element.structure", x & 0x80 != 0 && i == crate::rt::root::InfoType_u8(x & 0x7f)),
    }
}
/// The bit fields keep the stored value.
pub fn wrap(a: u8, b: u64) {
    mk::check("q.wrap.slot1", system_slots::SlotCharacteristics1::from(a).value() == a);
    mk::check("q.wrap.slot2", system_slots::SlotCharacteristics2::from(a).value() == a);
    mk::check("q.wrap.status", system_event_log::LogStatus::from(a).value() == a);
    mk::check("q.wrap.post", system_event_log::log_record_format::PostResults::from(b).value() == b);
}
