//! Decoding of each structure type: every field against the bytes at its specified offset, every
//! optional field's presence, every string reference, every error.
use crate::{errs, fld, fr, mk, opt, opt_txt, rf, rt, sp, spec, txt};
use dmidecode::bitfield::BitField;
use dmidecode::*;

spec!(bios, 0, Bios, l < 0x12, 0x12, [l >= 0x12 => 4, l >= 0x12 => 5, l >= 0x12 => 8], |buf, ep, l, short, s| {
    txt!("vendor", s.vendor, buf, 4);
    txt!("version", s.bios_version, buf, 5);
    fld!("segment", s.bios_starting_address_segment, sp::w(buf, 6));
    txt!("date", s.bios_release_date, buf, 8);
    fld!("rom_size", s.rom_size.basic, buf[9]);
    fld!("characteristics", s.bios_characteristics.value(), sp::q(buf, 0xA));
    let p24 = sp::ver(&ep, 2, 4) && l >= 0x18;
    opt!("ext1", s.bios_characteristics_exttension_1.map(|x| x.value()), p24, buf[0x12]);
    opt!("ext2", s.bios_characteristics_exttension_2.map(|x| x.value()), p24, buf[0x13]);
    opt!("revision", s.bios_revision, p24, bios::BiosRevision { major: buf[0x14], minor: buf[0x15] });
    opt!("firmware", s.firmware_revision, p24, bios::FirmwareRevision { major: buf[0x16], minor: buf[0x17] });
    opt!("rom_size_ext", s.rom_size.extended, sp::ver(&ep, 3, 1) && l >= 0x1A, sp::w(buf, 0x18));
});

spec!(system, 1, System, l < 8, 8, [l >= 8 => 4, l >= 8 => 5, l >= 8 => 6, l >= 8 => 7,
        sp::ver(&ep, 2, 4) && l >= 0x1B => 0x19, sp::ver(&ep, 2, 4) && l >= 0x1B => 0x1A], |buf, ep, l, short, s| {
    txt!("manufacturer", s.manufacturer, buf, 4);
    txt!("product", s.product, buf, 5);
    txt!("version", s.version, buf, 6);
    txt!("serial", s.serial, buf, 7);
    let p21 = sp::ver(&ep, 2, 1) && l >= 0x19;
    let p24 = sp::ver(&ep, 2, 4) && l >= 0x1B;
    mk::check("p.uuid", s.uuid.is_some() == p21);
    if let Some(u) = s.uuid {
        let b = u.as_bytes();
        let le = sp::ver(&ep, 2, 6);
        fld!("uuid0", b[0], if le { buf[11] } else { buf[8] });
        fld!("uuid1", b[1], if le { buf[10] } else { buf[9] });
        fld!("uuid2", b[2], if le { buf[9] } else { buf[10] });
        fld!("uuid3", b[3], if le { buf[8] } else { buf[11] });
        fld!("uuid4", b[4], if le { buf[13] } else { buf[12] });
        fld!("uuid5", b[5], if le { buf[12] } else { buf[13] });
        fld!("uuid6", b[6], if le { buf[15] } else { buf[14] });
        fld!("uuid7", b[7], if le { buf[14] } else { buf[15] });
        fld!("uuid8", b[8], buf[16]);
        fld!("uuid9", b[9], buf[17]);
        fld!("uuid10", b[10], buf[18]);
        fld!("uuid11", b[11], buf[19]);
        fld!("uuid12", b[12], buf[20]);
        fld!("uuid13", b[13], buf[21]);
        fld!("uuid14", b[14], buf[22]);
        fld!("uuid15", b[15], buf[23]);
    }
    opt!("wakeup", s.wakeup, p21, rt::system::WakeupType_u8(buf[0x18]));
    opt_txt!("sku", s.sku, p24, buf, 0x19);
    opt_txt!("family", s.family, p24, buf, 0x1A);
});

spec!(baseboard, 2, BaseBoard, l < 8, 8, [l >= 8 => 4, l >= 8 => 5, l >= 8 => 6, l >= 8 => 7, l > 8 => 8, l > 0xA => 0xA], |buf, ep, l, short, s| {
    txt!("manufacturer", s.manufacturer, buf, 4);
    txt!("product", s.product, buf, 5);
    txt!("version", s.version, buf, 6);
    txt!("serial", s.serial, buf, 7);
    opt_txt!("asset", s.asset, l > 8, buf, 8);
    opt!("flags", s.feature_flags.as_ref().map(|f| f.bits()), l > 9, buf[9] & 0x1f);
    opt_txt!("location", s.location_in_chassis, l > 0xA, buf, 0xA);
    opt!("chassis_handle", s.chassis_handle, l > 0xC, sp::w(buf, 0xB));
    opt!("board_type", s.board_type, l > 0xD, rt::baseboard::BoardType_u8(buf[0xD]));
});

pub fn enclosure(buf: &[u8], ep: EntryPointV3) {
    let r = fr::first(buf, ep, 3);
    let l = buf[1] as usize;
    let short = l < 9;
    // contained elements: count at 13h, record length at 14h, then count * record length bytes
    let has = l >= 0x15;
    let (n, m) = if has { (buf[0x13], buf[0x14]) } else { (0, 0) };
    let span = n as usize * m as usize;
    let fits = has && 0x15 + span <= l;
    let sku = fits && 0x15 + span < l;
    match r {
        Some(Ok(Structure::Enclosure(s))) => {
            mk::reach("accepted");
            mk::check("e.accepted", !short);
            fld!("handle", s.handle, sp::w(buf, 2));
            txt!("manufacturer", s.manufacturer, buf, 4);
            fld!("lock", s.chassis_lock, buf[5] & 0x80 != 0);
            fld!("type", s.enclosure_type, rt::enclosure::EnclosureType_u8(buf[5] & 0x7f));
            txt!("version", s.version, buf, 6);
            txt!("serial", s.serial_number, buf, 7);
            txt!("asset", s.asset_tag_number, buf, 8);
            opt!("bootup", s.boot_up_state, l > 9, rt::enclosure::State_u8(buf[9]));
            opt!("power", s.power_supply_state, l > 0xA, rt::enclosure::State_u8(buf[0xA]));
            opt!("thermal", s.thermal_state, l > 0xB, rt::enclosure::State_u8(buf[0xB]));
            opt!("security", s.security_status, l > 0xC, rt::enclosure::SecurityStatus_u8(buf[0xC]));
            opt!("oem", s.oem_defined, l > 0x10, sp::d(buf, 0xD));
            opt!("height", s.height, l > 0x11, buf[0x11]);
            opt!("cords", s.power_cords_number, l > 0x12, buf[0x12]);
            mk::check("p.elements", s.contained_elements.is_some() == fits);
            opt_txt!("sku", s.sku_number, sku, buf, 0x15 + span);
            if let Some(mut c) = s.contained_elements {
                fld!("elements.count", enclosure::ContainedElements::count(&c), n);
                let first = c.next();
                mk::check("f.elements.some", first.is_some() == (span > 0));
                if let Some(x) = first {
                    mk::check_eq("f.elements.first", &x, &enclosure::ContainedElement::from(&buf[0x15..0x15 + m as usize]));
                }
                let second = c.next();
                mk::check("f.elements.more", second.is_some() == (span > 0 && n > 1));
                if let Some(x) = second {
                    let o = 0x15 + m as usize;
                    mk::check_eq("f.elements.second", &x, &enclosure::ContainedElement::from(&buf[o..o + m as usize]));
                }
            }
        }
        Some(Err(e)) => {
            errs!(e, buf, InfoType::Enclosure, short, 9, [l >= 9 => 4, l >= 9 => 6, l >= 9 => 7, l >= 9 => 8, sku => 0x15 + span])
        }
        _ => mk::check("v.kind", false),
    }
}

spec!(processor, 4, Processor, l < 0x1A, 0x1A, [!short => 4, !short => 7, !short => 0x10,
        sp::ver(&ep, 2, 3) && l >= 0x23 => 0x20, sp::ver(&ep, 2, 3) && l >= 0x23 => 0x21, sp::ver(&ep, 2, 3) && l >= 0x23 => 0x22], |buf, ep, l, short, s| {
    txt!("socket", s.socket_designation, buf, 4);
    fld!("type", s.processor_type, rt::processor::ProcessorType_u8(buf[5]));
    let fam2 = buf[6] == 0xFE && sp::ver(&ep, 2, 6) && l >= 0x2A;
    let code = if fam2 { sp::w(buf, 0x28) } else { buf[6] as u16 };
    fld!("family", s.processor_family, rt::processor::ProcessorFamily_u16(code));
    txt!("manufacturer", s.processor_manufacturer, buf, 7);
    fld!("id", s.processor_id, sp::q(buf, 8));
    txt!("version", s.processor_version, buf, 0x10);
    let v = buf[0x11];
    match &s.voltage {
        processor::Voltage::Current(x) => { mk::check("f.voltage.current", v & 0x80 != 0 && *x == v & 0x7f); }
        processor::Voltage::Legacy(x) => { mk::check("f.voltage.legacy", v & 0xf8 == 0 && x.bits() == v); }
        processor::Voltage::Undefined(x) => { mk::check("f.voltage.undefined", v & 0x80 == 0 && v & 0x78 != 0 && *x == v); }
    }
    fld!("external_clock", s.external_clock, sp::w(buf, 0x12));
    fld!("max_speed", s.max_speed, sp::w(buf, 0x14));
    fld!("current_speed", s.current_speed, sp::w(buf, 0x16));
    fld!("status", s.status.bits(), buf[0x18] & 0x47);
    fld!("upgrade", s.processor_upgrade, rt::processor::ProcessorUpgrade_u8(buf[0x19]));
    let p21 = sp::ver(&ep, 2, 1) && l >= 0x20;
    let p23 = sp::ver(&ep, 2, 3) && l >= 0x23;
    let p25 = sp::ver(&ep, 2, 5) && l >= 0x28;
    let p30 = sp::ver(&ep, 3, 0) && l >= 0x30;
    opt!("l1", s.l1_cache_handle, p21, sp::w(buf, 0x1A));
    opt!("l2", s.l2_cache_handle, p21, sp::w(buf, 0x1C));
    opt!("l3", s.l3_cache_handle, p21, sp::w(buf, 0x1E));
    opt_txt!("serial", s.serial_number, p23, buf, 0x20);
    opt_txt!("asset", s.asset_tag, p23, buf, 0x21);
    opt_txt!("part", s.part_number, p23, buf, 0x22);
    opt!("core_count", s.core_count, p25, if p30 && buf[0x23] == 0xFF { sp::w(buf, 0x2A) } else { buf[0x23] as u16 });
    opt!("core_enabled", s.core_enabled, p25, if p30 && buf[0x24] == 0xFF { sp::w(buf, 0x2C) } else { buf[0x24] as u16 });
    opt!("thread_count", s.thread_count, p25, if p30 && buf[0x25] == 0xFF { sp::w(buf, 0x2E) } else { buf[0x25] as u16 });
    opt!("characteristics", s.processor_characteristics.as_ref().map(|x| x.bits()), p25, sp::w(buf, 0x26) & 0x2ff);
});

spec!(cache, 7, Cache, l < 0xF, 0xF, [!short => 4], |buf, ep, l, short, s| {
    txt!("socket", s.socket_designation, buf, 4);
    fld!("configuration", s.cache_configuration, cache::CacheConfiguration::from(sp::w(buf, 5)));
    fld!("maximum", s.maximum_cache_size, sp::size(sp::w(buf, 7)));
    fld!("installed", s.installed_size, sp::size(sp::w(buf, 9)));
    fld!("supported_sram", s.supported_sram_type.bits(), sp::w(buf, 0xB) & 0x7f);
    fld!("current_sram", s.current_sram_type.bits(), sp::w(buf, 0xD) & 0x7f);
    let p21 = sp::ver(&ep, 2, 1) && l >= 0x13;
    let p31 = sp::ver(&ep, 3, 1) && l >= 0x1B;
    opt!("speed", s.cache_speed, p21, buf[0xF]);
    opt!("correction", s.error_correction_type, p21, rt::cache::CacheErrorCorrectionType_u8(buf[0x10]));
    opt!("system_type", s.system_cache_type, p21, rt::cache::SystemCacheType_u8(buf[0x11]));
    opt!("associativity", s.associativity, p21, rt::cache::CacheAssociativity_u8(buf[0x12]));
    opt!("maximum2", s.maximum_cache_size_2, p31, sp::size2(sp::d(buf, 0x13)));
    opt!("installed2", s.installed_size_2, p31, sp::size2(sp::d(buf, 0x17)));
});

spec!(port_connector, 8, PortConnector, l < 9, 9, [!short => 4, !short => 6], |buf, ep, l, short, s| {
    txt!("internal", s.internal_reference_designator, buf, 4);
    fld!("internal_type", s.internal_connector_type, rt::port_connector::ConnectorType_u8(buf[5]));
    txt!("external", s.external_reference_designator, buf, 6);
    fld!("external_type", s.external_connector_type, rt::port_connector::ConnectorType_u8(buf[7]));
    fld!("port_type", s.port_type, rt::port_connector::PortType_u8(buf[8]));
});

pub fn system_slots(buf: &[u8], ep: EntryPointV3) {
    let r = fr::first(buf, ep, 9);
    let l = buf[1] as usize;
    let short = if !sp::ver(&ep, 2, 1) { l != 0xC } else if !sp::ver(&ep, 2, 6) { l != 0xD } else if !sp::ver(&ep, 3, 2) { l != 0x11 } else { l < 0x11 };
    match r {
        Some(Ok(Structure::SystemSlots(s))) => {
            mk::reach("accepted");
            mk::check("e.accepted", !short);
            fld!("handle", s.handle, sp::w(buf, 2));
            txt!("designation", s.slot_designation, buf, 4);
            fld!("type", s.slot_type, rt::system_slots::SlotType_u8(buf[5]));
            fld!("width", s.slot_data_bus_width, rt::system_slots::SlotWidth_u8(buf[6]));
            fld!("usage", s.current_usage, rt::system_slots::CurrentUsage_u8(buf[7]));
            fld!("length", s.slot_length, rt::system_slots::SlotLength_u8(buf[8]));
            fld!("id", s.slot_id, sp::w(buf, 9));
            fld!("char1", s.slot_characteristics_1.value(), buf[0xB]);
            opt!("char2", s.slot_characteristics_2.map(|x| x.value()), l > 0xC, buf[0xC]);
            opt!("segment", s.segment_group_number, l > 0xE && sp::w(buf, 0xD) != 0xFFFF, sp::w(buf, 0xD));
            opt!("bus", s.bus_number, l > 0xF && buf[0xF] != 0xFF, buf[0xF]);
            opt!("device", s.device_and_function_number.map(|x| u8::from(x)), l > 0x10 && buf[0x10] != 0xFF, buf[0x10]);
            opt!("data_width", s.data_bus_width, l > 0x11, buf[0x11]);
            let n = if l > 0x12 { buf[0x12] as usize } else { 0 };
            mk::check("p.peers", s.peer_devices.is_some() == (l >= 0x13 + 5 * n));
            opt!("information", s.slot_information, l > 0x14 + 5 * n, buf[0x14 + 5 * n]);
            opt!("physical_width", s.slot_physical_width, l > 0x15 + 5 * n, rt::system_slots::SlotWidth_u8(buf[0x15 + 5 * n]));
            opt!("pitch", s.slot_pitch, l > 0x17 + 5 * n, system_slots::SlotPitch::from(sp::w(buf, 0x16 + 5 * n)));
            if let Some(mut p) = s.peer_devices {
                let a = p.next();
                mk::check("f.peers.some", a.is_some() == (n > 0));
                if let Some(a) = a { sp::peer("f.peers.first", a, buf, 0x13); }
                let b = p.next();
                mk::check("f.peers.more", b.is_some() == (n > 1));
                if let Some(b) = b { sp::peer("f.peers.second", b, buf, 0x18); }
            }
        }
        Some(Err(e)) => { errs!(e, buf, InfoType::SystemSlots, short, if !sp::ver(&ep, 2, 1) { 0xC } else if !sp::ver(&ep, 2, 6) { 0xD } else { 0x11 }, [l > 4 => 4]) }
        _ => mk::check("v.kind", false),
    }
}

pub fn oem_strings(buf: &[u8], ep: EntryPointV3) {
    match fr::first(buf, ep, 11) {
        Some(Ok(Structure::OemStrings(s))) => {
            mk::reach("accepted");
            fld!("handle", s.handle, sp::w(buf, 2));
        }
        _ => mk::check("v.kind", false),
    }
}

pub fn bios_language(buf: &[u8], ep: EntryPointV3) {
    let r = fr::first(buf, ep, 13);
    let l = buf[1] as usize;
    let p21 = sp::ver(&ep, 2, 1);
    let short = if p21 { l < 0x16 } else { l < 0x15 };
    match r {
        Some(Ok(Structure::BiosLanguage(s))) => {
            mk::reach("accepted");
            mk::check("e.accepted", !short);
            fld!("handle", s.handle, sp::w(buf, 2));
            opt!("flags", s.flags.map(|x| x.value()), p21, buf[5]);
            fld!("current", s.current_language, if p21 { buf[0x15] } else { buf[0x14] });
            let mut i = s.installable_languages.clone();
            mk::check_eq("s.first", &i.next(), &mk::nth_string(1));
            mk::check_eq("s.second", &i.next(), &mk::nth_string(2));
            mk::check_eq("s.third", &i.next(), &mk::nth_string(3));
        }
        Some(Err(e)) => { errs!(e, buf, InfoType::BiosLanguage, short, if p21 { 0x16 } else { 0x15 }, []) }
        _ => mk::check("v.kind", false),
    }
}

spec!(group_associations, 14, GroupAssociations, l < 5, 5, [!short => 4], |buf, ep, l, short, s| {
    txt!("name", s.group_name, buf, 4);
    let mut i = s.items;
    let a = i.next();
    mk::check("f.items.some", a.is_some() == (l >= 8));
    if let Some(a) = a { fld!("items.first", a, group_associations::GroupItem { type_: buf[5], handle: sp::w(buf, 6) }); }
    let b = i.next();
    mk::check("f.items.more", b.is_some() == (l >= 11));
    if let Some(b) = b { fld!("items.second", b, group_associations::GroupItem { type_: buf[8], handle: sp::w(buf, 9) }); }
});

pub fn system_event_log(buf: &[u8], ep: EntryPointV3) {
    let r = fr::first(buf, ep, 15);
    let l = buf[1] as usize;
    let has = l > 0x16;
    let (n, m) = if has { (buf[0x15] as usize, buf[0x16] as usize) } else { (0, 0) };
    let short = if !sp::ver(&ep, 2, 1) { l != 0x14 } else { !has || l != 0x17 + n * m };
    match r {
        Some(Ok(Structure::SystemEventLog(s))) => {
            mk::reach("accepted");
            mk::check("e.accepted", !short);
            fld!("handle", s.handle, sp::w(buf, 2));
            fld!("area_length", s.log_area_length, sp::w(buf, 4));
            fld!("header_start", s.log_header_start_offset, sp::w(buf, 6));
            fld!("data_start", s.log_data_start_offset, sp::w(buf, 8));
            fld!("access", s.access_method, sp::access(buf[0xA], sp::d(buf, 0x10)));
            fld!("status", s.log_status.value(), buf[0xB]);
            fld!("token", s.log_change_token, sp::d(buf, 0xC));
            opt!("header_format", s.log_header_format, l > 0x14, rt::system_event_log::LogHeaderFormat_u8(buf[0x14]));
            mk::check("p.descriptors", s.supported_event_log_type_descriptors.is_some() == has);
            if let Some(mut t) = s.supported_event_log_type_descriptors {
                let a = t.next();
                mk::check("f.descriptors.some", a.is_some() == (n > 0 && m == 2));
                if let Some(a) = a {
                    fld!("descriptors.type", a.log_type, rt::log_record_format::EventLogType_u8(buf[0x17]));
                    fld!("descriptors.format", a.variable_data_format_type, rt::log_record_format::VariableDataFormatType_u8(buf[0x18]));
                }
                let b = t.next();
                mk::check("f.descriptors.more", b.is_some() == (n > 1 && m == 2));
                if let Some(b) = b {
                    fld!("descriptors.type2", b.log_type, rt::log_record_format::EventLogType_u8(buf[0x19]));
                    fld!("descriptors.format2", b.variable_data_format_type, rt::log_record_format::VariableDataFormatType_u8(buf[0x1A]));
                }
            }
        }
        Some(Err(e)) => { errs!(e, buf, InfoType::SystemEventLog, short, if !sp::ver(&ep, 2, 1) { 0x14 } else if !has || n == 0 || m == 0 { 0x17 } else if n == 2 && m == 2 { 0x1B } else if n == 9 && m == 8 { 0x5F } else { 256 }, []) }
        _ => mk::check("v.kind", false),
    }
}

spec!(physical_memory_array, 16, PhysicalMemoryArray, sp::ver(&ep, 2, 1) && l < 0xF, 0xF, [], |buf, ep, l, short, s| {
    if sp::ver(&ep, 2, 1) {
        fld!("location", s.location, rt::physical_memory_array::MemoryArrayLocation_u8(buf[4]));
        fld!("use", s.r#use, rt::physical_memory_array::MemoryArrayUse_u8(buf[5]));
        fld!("correction", s.memory_error_correction, rt::physical_memory_array::MemoryArrayErrorCorrectionTypes_u8(buf[6]));
        fld!("devices", s.number_of_memory_devices, sp::w(buf, 0xD));
    }
    let p21 = sp::ver(&ep, 2, 1);
    opt!("maximum", s.maximum_capacity, p21 && sp::d(buf, 7) != 0x8000_0000, sp::d(buf, 7));
    opt!("error_handle", s.memory_error_information_handle, p21 && sp::w(buf, 0xB) != 0xFFFE, sp::w(buf, 0xB));
    let ext = sp::ver(&ep, 2, 7) && sp::d(buf, 7) == 0x8000_0000 && l >= 0x17 && sp::q(buf, 0xF) != 0;
    opt!("extended_maximum", s.extended_maximum_capacity, ext, sp::q(buf, 0xF));
});

spec!(memory_device, 17, MemoryDevice, l < 0x20, 0x15, [l >= 0x15 => 0x10, l >= 0x15 => 0x11, l > 0x17 => 0x17, l > 0x18 => 0x18, l > 0x19 => 0x19, l > 0x1A => 0x1A], |buf, ep, l, short, s| {
    fld!("array_handle", s.physical_memory_handle, sp::w(buf, 4));
    opt!("error_handle", s.memory_error_handle, sp::w(buf, 6) != 0xFFFE, sp::w(buf, 6));
    opt!("total_width", s.total_width, sp::w(buf, 8) != 0xFFFF, sp::w(buf, 8));
    opt!("data_width", s.data_width, sp::w(buf, 0xA) != 0xFFFF, sp::w(buf, 0xA));
    opt!("size", s.size, sp::w(buf, 0xC) != 0xFFFF, sp::w(buf, 0xC));
    fld!("form_factor", s.form_factor, rt::memory_device::FormFactor_u8(buf[0xE]));
    fld!("device_set", s.device_set, Some(buf[0xF]));
    txt!("device_locator", s.device_locator, buf, 0x10);
    txt!("bank_locator", s.bank_locator, buf, 0x11);
    fld!("type", s.memory_type, rt::memory_device::Type_u8(buf[0x12]));
    fld!("detail", s.type_detail.bits(), sp::w(buf, 0x13) & 0xfffe);
    opt!("speed", s.speed, sp::w(buf, 0x15) != 0, sp::w(buf, 0x15));
    txt!("manufacturer", s.manufacturer, buf, 0x17);
    txt!("serial", s.serial, buf, 0x18);
    txt!("asset", s.asset_tag, buf, 0x19);
    txt!("part", s.part_number, buf, 0x1A);
    fld!("attributes", s.attributes, buf[0x1B]);
    fld!("extended_size", s.extended_size, sp::d(buf, 0x1C));
    opt!("configured_speed", s.configured_memory_speed, l > 0x21 && sp::w(buf, 0x20) != 0, sp::w(buf, 0x20));
    opt!("min_voltage", s.minimum_voltage, l > 0x23 && sp::w(buf, 0x22) != 0, sp::w(buf, 0x22));
    opt!("max_voltage", s.maximum_voltage, l > 0x25 && sp::w(buf, 0x24) != 0, sp::w(buf, 0x24));
    opt!("configured_voltage", s.configured_voltage, l > 0x27 && sp::w(buf, 0x26) != 0, sp::w(buf, 0x26));
    opt!("technology", s.memory_technology, l > 0x28, rt::memory_device::MemoryTechnology_u8(buf[0x28]));
    opt!("modes", s.operating_mode_capability.as_ref().map(|x| x.bits()), l > 0x2A, sp::w(buf, 0x29) & 0x3e);
    opt_txt!("firmware", s.firmware_version, l > 0x2B && sp::ok(buf[0x2B]), buf, 0x2B);
    opt!("module_manufacturer", s.module_manufacturer, l > 0x2D, sp::w(buf, 0x2C));
    opt!("module_product", s.module_product_id, l > 0x2F, sp::w(buf, 0x2E));
    opt!("controller_manufacturer", s.memory_subsystem_controller_manufacturer_id, l > 0x31, sp::w(buf, 0x30));
    opt!("controller_product", s.memory_subsystem_controller_product_id, l > 0x33, sp::w(buf, 0x32));
    opt!("non_volatile", s.non_volatile_size, l > 0x3B, sp::q(buf, 0x34));
    opt!("volatile", s.volatile_size, l > 0x43, sp::q(buf, 0x3C));
    opt!("cache", s.cache_size, l > 0x4B, sp::q(buf, 0x44));
    opt!("logical", s.logical_size, l > 0x53, sp::q(buf, 0x4C));
    opt!("extended_speed", s.extended_speed, l > 0x57, sp::d(buf, 0x54));
    opt!("extended_configured_speed", s.extended_configured_memory_speed, l > 0x5B, sp::d(buf, 0x58));
});

spec!(memory_error_32, 18, MemoryError32, if sp::ver(&ep, 2, 1) { l != 0x17 } else { l < 0x17 }, 0x17, [], |buf, ep, l, short, s| {
    fld!("type", s.error_type, rt::memory_error_32::ErrorType_u8(buf[4]));
    fld!("granularity", s.error_granularity, rt::memory_error_32::ErrorGranularity_u8(buf[5]));
    fld!("operation", s.error_operation, rt::memory_error_32::ErrorOperation_u8(buf[6]));
    fld!("syndrome", s.vendor_syndrome, sp::d(buf, 7));
    fld!("array_address", s.memory_array_error_address, sp::d(buf, 0xB));
    fld!("device_address", s.device_error_address, sp::d(buf, 0xF));
    fld!("resolution", s.error_resolution, sp::d(buf, 0x13));
});

spec!(memory_array_mapped, 19, MemoryArrayMappedAddress, if sp::ver(&ep, 2, 7) { l != 0x1F } else if sp::ver(&ep, 2, 1) { l != 0xF } else { l < 0xF }, if sp::ver(&ep, 2, 7) { 0x1F } else { 0xF }, [], |buf, ep, l, short, s| {
    fld!("start", s.starting_address, sp::d(buf, 4));
    fld!("end", s.ending_address, sp::d(buf, 8));
    fld!("array", s.memory_array_handle, sp::w(buf, 0xC));
    fld!("width", s.partition_width, buf[0xE]);
    opt!("extended_start", s.extended_starting_address, l >= 0x17, sp::q(buf, 0xF));
    opt!("extended_end", s.extended_ending_address, l >= 0x1F, sp::q(buf, 0x17));
});

spec!(memory_device_mapped, 20, MemoryDeviceMappedAddress, if sp::ver(&ep, 2, 7) { l != 0x23 } else if sp::ver(&ep, 2, 1) { l != 0x13 } else { l < 0x13 }, if sp::ver(&ep, 2, 7) { 0x23 } else { 0x13 }, [], |buf, ep, l, short, s| {
    fld!("start", s.starting_address, sp::d(buf, 4));
    fld!("end", s.ending_address, sp::d(buf, 8));
    fld!("device", s.memory_device_handle, sp::w(buf, 0xC));
    fld!("array", s.memory_array_mapped_address_handle, sp::w(buf, 0xE));
    fld!("row", s.partition_row_position, buf[0x10]);
    fld!("interleave", s.interleave_position, buf[0x11]);
    fld!("depth", s.interleaved_data_depth, buf[0x12]);
    opt!("extended_start", s.extended_starting_address, l >= 0x1B, sp::q(buf, 0x13));
    opt!("extended_end", s.extended_ending_address, l >= 0x23, sp::q(buf, 0x1B));
});

spec!(pointing_device, 21, BuiltInPointingDevice, if sp::ver(&ep, 2, 1) { l != 7 } else { l < 7 }, 7, [], |buf, ep, l, short, s| {
    fld!("type", s.type_, rt::built_in_pointing_device::Type_u8(buf[4]));
    fld!("interface", s.interface, rt::built_in_pointing_device::Interface_u8(buf[5]));
    fld!("buttons", s.number_of_buttons, buf[6]);
});

spec!(portable_battery, 22, PortableBattery, if sp::ver(&ep, 2, 2) { l != 0x1A } else if sp::ver(&ep, 2, 1) { l != 0x10 } else { l < 0x10 }, if sp::ver(&ep, 2, 2) { 0x1A } else { 0x10 }, [l > 4 => 4, l > 5 => 5, l > 8 => 8, l > 0xE => 0xE], |buf, ep, l, short, s| {
    use portable_battery::*;
    txt!("location", s.location, buf, 4);
    txt!("manufacturer", s.manufacturer, buf, 5);
    let date = if buf[6] != 0 && sp::ok(buf[6]) { ManufactureDate::Basic(sp::st(buf, 6)) }
        else if l >= 0x14 { let x = sp::w(buf, 0x12); ManufactureDate::SmartBatteryDataSpecification { year: (x >> 9) + 1980, month: (x >> 5 & 0xf) as u8, date: (x & 0x1f) as u8 } }
        else { ManufactureDate::None };
    fld!("date", s.manufacture_date, date);
    let serial = if buf[7] != 0 && sp::ok(buf[7]) { SerialNumber::Basic(sp::st(buf, 7)) }
        else if l >= 0x12 { SerialNumber::SmartBatteryDataSpecification(sp::w(buf, 0x10)) }
        else { SerialNumber::None };
    fld!("serial", s.serial_number, serial);
    txt!("name", s.device_name, buf, 8);
    let c = buf[9];
    let chem = if c == 1 { DeviceChemistry::Other }
        else if c == 2 { if l > 0x14 && sp::ok(buf[0x14]) { DeviceChemistry::SmartBatteryDataSpecification(sp::st(buf, 0x14)) } else { DeviceChemistry::Unknown } }
        else if c == 3 { DeviceChemistry::LeadAcid } else if c == 4 { DeviceChemistry::NickelCadmium } else if c == 5 { DeviceChemistry::NickelMetalHydride }
        else if c == 6 { DeviceChemistry::LithiumIon } else if c == 7 { DeviceChemistry::ZincAir } else if c == 8 { DeviceChemistry::LithiumPolymer }
        else { DeviceChemistry::Undefined(c) };
    fld!("chemistry", s.device_chemistry, chem);
    let cap = sp::w(buf, 0xA);
    fld!("capacity", s.design_capacity, if cap == 0 { DesignCapacity::Unknown } else { DesignCapacity::Data { value: cap, multiplier: if l > 0x15 { buf[0x15] } else { 1 } } });
    fld!("voltage", s.design_voltage, sp::w(buf, 0xC));
    txt!("sbds", s.sbds_version_number, buf, 0xE);
    fld!("error", s.maximum_error_in_battery_data, buf[0xF]);
    opt!("oem", s.oem_specific, l > 0x19, sp::d(buf, 0x16));
});
