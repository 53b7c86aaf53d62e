//! Lists of records inside structures: every record and the end of the list. A structure is at most
//! 255 bytes long, so these are all the records there can be.
use crate::{fr, mk, rt, sp};
use dmidecode::*;
pub fn group(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::GroupAssociations(s))) = fr::first(buf, ep, 14) {
        mk::unroll(90);
        let l = buf[1] as usize;
        let mut it = s.items;
        let mut k = 0;
        while k < 84 {
            let o = 5 + 3 * k;
            let r = it.next();
            mk::check("f.group.some", r.is_some() == (o + 3 <= l));
            if let Some(x) = r {
                mk::check("f.group.item", x.type_ == buf[o] && x.handle == sp::w(buf, o + 1));
            }
            k += 1;
        }
        mk::check("u.group.end", it.next().is_none());
    }
}
pub fn elements(buf: &[u8], ep: EntryPointV3) {
    mk::fix(buf, 0x13, 70);
    mk::fix(buf, 0x14, 3);
    mk::assume(buf.len() > 255 && buf[1] == 255);
    if let Some(Ok(Structure::Enclosure(s))) = fr::first(buf, ep, 3) {
        if let Some(mut it) = s.contained_elements {
            mk::unroll(90);
            let (c, m) = (buf[0x13] as usize, buf[0x14] as usize);
            
            let mut k = 0;
            while k < 71 {
                let o = 0x15 + 3 * k;
                let r = it.next();
                mk::check("f.elements.some", r.is_some() == (k < c));
                if let Some(x) = r {
                    mk::check_eq("f.elements.item", &x, &enclosure::ContainedElement::from(&buf[o..o + 3]));
                }
                k += 1;
            }
            mk::check("u.elements.end", it.next().is_none());
        }
    }
}
pub fn peers(buf: &[u8], ep: EntryPointV3) {
    if let Some(Ok(Structure::SystemSlots(s))) = fr::first(buf, ep, 9) {
        if let Some(mut it) = s.peer_devices {
            mk::unroll(60);
            let c = buf[0x12] as usize;
            let mut k = 0;
            while k < 48 {
                let o = 0x13 + 5 * k;
                let r = it.next();
                mk::check("f.peers.some", r.is_some() == (k < c));
                if let Some(x) = r {
                    mk::check("f.peers.item", x.segment_group_number == sp::w(buf, o) && x.bus_number == buf[o + 2]
                        && u8::from(x.device_and_function_number) == buf[o + 3] && x.data_bus_width == buf[o + 4]);
                }
                k += 1;
            }
            mk::check("u.peers.end", it.next().is_none());
        }
    }
}
pub fn events(buf: &[u8], ep: EntryPointV3) {
    mk::assume(buf.len() > 255 && buf[1] == 255 && buf[0x15] == 116 && buf[0x16] == 2);
    if let Some(Ok(Structure::SystemEventLog(s))) = fr::first(buf, ep, 15) {
        if let Some(mut it) = s.supported_event_log_type_descriptors {
            mk::unroll(120);
            let c = buf[0x15] as usize;
            
            let mut k = 0;
            while k < 117 {
                let o = 0x17 + 2 * k;
                let r = it.next();
                mk::check("f.events.some", r.is_some() == (k < c));
                if let Some(x) = r {
                    mk::check_eq("f.events.type", &x.log_type, &rt::log_record_format::EventLogType_u8(buf[o]));
                    mk::check_eq("f.events.format", &x.variable_data_format_type, &rt::log_record_format::VariableDataFormatType_u8(buf[o + 1]));
                }
                k += 1;
            }
            mk::check("u.events.end", it.next().is_none());
        }
    }
}
