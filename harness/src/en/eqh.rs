//! Lists of records are equal exactly when they hold the same bytes, and equal lists hash alike.
use crate::hs::*;
use crate::{fr, mk};
use dmidecode::*;
macro_rules! peers { ($n:ident, $x:literal, $y:literal) => {
    pub fn $n(a: &[u8], b: &[u8], ep: EntryPointV3) {
        mk::fix(a, 1, 0x13 + 5 * $x);
        mk::fix(a, 0x12, $x);
        mk::fix(b, 1, 0x13 + 5 * $y);
        mk::fix(b, 0x12, $y);
        if let (Some(Ok(Structure::SystemSlots(s))), Some(Ok(Structure::SystemSlots(t)))) = (fr::first(a, ep, 9), fr::first(b, ep, 9)) {
            if let (Some(x), Some(y)) = (s.peer_devices, t.peer_devices) {
                mk::unroll(40);
                eq("h.peers", &x, &y, $x == $y && alike(a, b, 0x13, 0x13 + 5 * $x));
                hash("h.hash.peers", &x, &y);
            }
        }
    }
} }
peers!(peers_0_0, 0, 0);
peers!(peers_0_1, 0, 1);
peers!(peers_1_2, 1, 2);
peers!(peers_2_2, 2, 2);
macro_rules! elements { ($n:ident, $x:literal $xl:literal, $y:literal $yl:literal) => {
    pub fn $n(a: &[u8], b: &[u8], ep: EntryPointV3) {
        mk::fix(a, 1, 0x15 + $x * $xl);
        mk::fix(a, 0x13, $x);
        mk::fix(a, 0x14, $xl);
        mk::fix(b, 1, 0x15 + $y * $yl);
        mk::fix(b, 0x13, $y);
        mk::fix(b, 0x14, $yl);
        if let (Some(Ok(Structure::Enclosure(s))), Some(Ok(Structure::Enclosure(t)))) = (fr::first(a, ep, 3), fr::first(b, ep, 3)) {
            if let (Some(x), Some(y)) = (s.contained_elements, t.contained_elements) {
                mk::unroll(40);
                eq("h.elements", &x, &y, $x == $y && $xl == $yl && alike(a, b, 0x15, 0x15 + $x * $xl));
                hash("h.hash.elements", &x, &y);
            }
        }
    }
} }
elements!(elements_0, 0 3, 0 3);
elements!(elements_2, 2 3, 2 3);
elements!(elements_12, 1 3, 2 3);
elements!(elements_21, 2 3, 1 3);
elements!(elements_13, 1 3, 1 4);
elements!(elements_26, 1 6, 2 3);
elements!(elements_z, 2 0, 3 0);
elements!(elements_zz, 2 0, 2 0);
elements!(elements_34, 0 3, 0 4);
macro_rules! events { ($n:ident, $x:literal, $y:literal) => {
    pub fn $n(a: &[u8], b: &[u8], ep: EntryPointV3) {
        mk::fix(a, 1, 0x17 + 2 * $x);
        mk::fix(a, 0x15, $x);
        mk::fix(a, 0x16, 2);
        mk::fix(b, 1, 0x17 + 2 * $y);
        mk::fix(b, 0x15, $y);
        mk::fix(b, 0x16, 2);
        if let (Some(Ok(Structure::SystemEventLog(s))), Some(Ok(Structure::SystemEventLog(t)))) = (fr::first(a, ep, 15), fr::first(b, ep, 15)) {
            if let (Some(x), Some(y)) = (s.supported_event_log_type_descriptors, t.supported_event_log_type_descriptors) {
                mk::unroll(40);
                eq("h.events", &x, &y, $x == $y && alike(a, b, 0x17, 0x17 + 2 * $x));
                hash("h.hash.events", &x, &y);
            }
        }
    }
} }
events!(events_0_0, 0, 0);
events!(events_1_2, 1, 2);
events!(events_3_3, 3, 3);
/// Structures are equal when they are of one kind and their contents are.
macro_rules! kinds { ($($n:ident $v:ident $t:ty;)*) => { $(
    pub fn $n(x: &$t, h: u16, o: &RawStructure<'static>) {
        let mut y = x.clone();
        y.handle = h;
        let (a, b) = (Structure::$v(x.clone()), Structure::$v(y));
        mk::check("h.kind", (a == b) == (x.handle == h));
        mk::check("h.kind", (a != b) == (x.handle != h));
        mk::check("h.kind.copy", matches!(&a, Structure::$v(z) if z.handle == x.handle) && a == a.clone());
        let c = Structure::Other(o.clone());
        mk::check("h.kind.other", a != c && c != a);
    }
)* } }
kinds! {
    kind_bios Bios Bios<'static>;
    kind_system System System<'static>;
    kind_baseboard BaseBoard BaseBoard<'static>;
    kind_processor Processor Processor<'static>;
    kind_cache Cache Cache<'static>;
    kind_port PortConnector PortConnector<'static>;
    kind_oem OemStrings OemStrings<'static>;
    kind_options SystemConfigurationOptions SystemConfigurationOptions<'static>;
    kind_languages BiosLanguage BiosLanguage<'static>;
    kind_group GroupAssociations GroupAssociations<'static>;
    kind_device MemoryDevice MemoryDevice<'static>;
    kind_error MemoryError32 MemoryError32;
    kind_array_mapped MemoryArrayMappedAddress MemoryArrayMappedAddress;
    kind_device_mapped MemoryDeviceMappedAddress MemoryDeviceMappedAddress;
    kind_pointing BuiltInPointingDevice BuiltInPointingDevice;
    kind_battery PortableBattery PortableBattery<'static>;
    kind_array PhysicalMemoryArray PhysicalMemoryArray;
}
