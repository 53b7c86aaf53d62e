//! Texts of values with more than one part.
use crate::{mk, rt, sp};
use dmidecode::*;
pub fn device(b: [u8; 5]) {
    let d = system_slots::Device::from(&b[..]);
    mk::check("d.device", mk::text_eq(mk::text(&d), mk::textf(format_args!("{:04x}:{:02x}:{:02x}.{:x} (Width {})", sp::w(&b, 0), b[2], b[3] >> 3, b[3] & 7, b[4]))));
}
pub fn pitch(x: u16) {
    let p = system_slots::SlotPitch::from(x);
    if x == 0 {
        mk::check("d.pitch.none", mk::text_eq(mk::text(&p), mk::text("Not given or is unknown")));
    } else {
        mk::check("d.pitch", mk::text_eq(mk::text(&p), mk::textf(format_args!("{:.2} mm", x as f32 / 100.0))));
    }
}
pub fn element(b: [u8; 3]) {
    let e = enclosure::ContainedElement::from(&b[..]);
    let t = enclosure::ContainedElementType::from(b[0]);
    mk::check("d.element", mk::text_eq(mk::text(&e), mk::textf(format_args!("{} ({}-{})", rt::enclosure::DContainedElementType(&t), b[1], b[2]))));
}
/// Fields that are only visible through their printed form.
pub fn cache_configuration(x: u16) {
    let c = cache::CacheConfiguration::from(x);
    let r = sp::CacheConfiguration {
        level: rt::cache::CacheLevel_u16(x & 7),
        socketed: x & 8 != 0,
        location: rt::cache::CacheLocation_u16((x >> 5) & 3),
        enabled_at_boot_time: x & 0x80 != 0,
        operational_mode: rt::cache::CacheOperationalMode_u16((x >> 8) & 3),
    };
    mk::check("d.cache", mk::text_eq(mk::debug(&c), mk::debug(&r)));
}
pub fn element_debug(b: [u8; 3]) {
    let e = enclosure::ContainedElement::from(&b[..]);
    let r = sp::ContainedElement { type_: enclosure::ContainedElementType::from(b[0]), minimum: b[1], maximum: b[2] };
    mk::check("d.element.debug", mk::text_eq(mk::debug(&e), mk::debug(&r)));
}
#[cfg(feature = "std")]
/// Only the error about a value that does not fit has a cause, and it is that one.
pub fn source(e: MalformedStructureError) {
    use core::error::Error;
    mk::check("d.source", e.source().is_some() == matches!(e, MalformedStructureError::InvalidSlice(_)));
}
#[cfg(feature = "std")]
pub fn source_entry(e: InvalidEntryPointError) {
    use core::error::Error;
    mk::check("d.source.entry", e.source().is_none());
}
