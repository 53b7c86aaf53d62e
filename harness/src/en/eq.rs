//! Equality and hashing: values are equal exactly when all their parts are, and equal values hash alike.
#![allow(non_snake_case)]
use crate::mk;
use crate::hs::eq;
pub fn bitfield_Flag(a: &dmidecode::bitfield::Flag<'static>, b: &dmidecode::bitfield::Flag<'static>) {
    eq("h.bitfield.Flag", a, b, a.position == b.position && a.is_set == b.is_set && a.type_ == b.type_);
}
pub fn bitfield_FlagType(a: &dmidecode::bitfield::FlagType<'static>, b: &dmidecode::bitfield::FlagType<'static>) {
    eq("h.bitfield.FlagType", a, b, mk::same(a, b));
}
pub fn bitfield_Position(a: &dmidecode::bitfield::Position, b: &dmidecode::bitfield::Position) {
    eq("h.bitfield.Position", a, b, a.0 == b.0);
}
pub fn bitfield_ReservedRange(a: &dmidecode::bitfield::ReservedRange<'static>, b: &dmidecode::bitfield::ReservedRange<'static>) {
    eq("h.bitfield.ReservedRange", a, b, a.description == b.description && a.range == b.range);
}
pub fn root_EntryPoint(a: &dmidecode::EntryPoint, b: &dmidecode::EntryPoint) {
    eq("h.root.EntryPoint", a, b, mk::same(a, b));
}
pub fn root_EntryPointV2(a: &dmidecode::EntryPointV2, b: &dmidecode::EntryPointV2) {
    eq("h.root.EntryPointV2", a, b, a.signature == b.signature && a.checksum == b.checksum && a.len == b.len && a.major == b.major && a.minor == b.minor && a.struct_max == b.struct_max && a.revision == b.revision && a.formatted == b.formatted && a.dmi_signature == b.dmi_signature && a.dmi_checksum == b.dmi_checksum && a.smbios_len == b.smbios_len && a.smbios_address == b.smbios_address && a.smbios_count == b.smbios_count && a.bcd_revision == b.bcd_revision);
}
pub fn root_EntryPointV3(a: &dmidecode::EntryPointV3, b: &dmidecode::EntryPointV3) {
    eq("h.root.EntryPointV3", a, b, mk::same(a, b));
}
pub fn root_SmbiosVersion(a: &dmidecode::SmbiosVersion, b: &dmidecode::SmbiosVersion) {
    eq("h.root.SmbiosVersion", a, b, a.major == b.major && a.minor == b.minor);
}
pub fn root_RawStructure(a: &dmidecode::RawStructure<'static>, o: &dmidecode::RawStructure<'static>) {
    {
        let mut b = a.clone();
        b.version = o.version.clone();
        eq("h.root.RawStructure.version", a, &b, a.version == o.version);
    }
    {
        let mut b = a.clone();
        b.info = o.info.clone();
        eq("h.root.RawStructure.info", a, &b, a.info == o.info);
    }
    {
        let mut b = a.clone();
        b.length = o.length.clone();
        eq("h.root.RawStructure.length", a, &b, a.length == o.length);
    }
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.root.RawStructure.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.data = o.data.clone();
        eq("h.root.RawStructure.data", a, &b, a.data == o.data);
    }
}
pub fn root_InfoType(a: &dmidecode::InfoType, b: &dmidecode::InfoType) {
    eq("h.root.InfoType", a, b, mk::same(a, b));
}
pub fn bios_Bios(a: &dmidecode::bios::Bios<'static>, b: &dmidecode::bios::Bios<'static>) {
    eq("h.bios.Bios", a, b, a.handle == b.handle && a.vendor == b.vendor && a.bios_version == b.bios_version && a.bios_starting_address_segment == b.bios_starting_address_segment && a.bios_release_date == b.bios_release_date && a.rom_size == b.rom_size && a.bios_characteristics == b.bios_characteristics && a.bios_characteristics_exttension_1 == b.bios_characteristics_exttension_1 && a.bios_characteristics_exttension_2 == b.bios_characteristics_exttension_2 && a.bios_revision == b.bios_revision && a.firmware_revision == b.firmware_revision);
}
pub fn bios_Characteristics(a: &dmidecode::bios::Characteristics, b: &dmidecode::bios::Characteristics) {
    eq("h.bios.Characteristics", a, b, mk::same(a, b));
}
pub fn bios_CharacteristicsExtension1(a: &dmidecode::bios::CharacteristicsExtension1, b: &dmidecode::bios::CharacteristicsExtension1) {
    eq("h.bios.CharacteristicsExtension1", a, b, mk::same(a, b));
}
pub fn bios_CharacteristicsExtension2(a: &dmidecode::bios::CharacteristicsExtension2, b: &dmidecode::bios::CharacteristicsExtension2) {
    eq("h.bios.CharacteristicsExtension2", a, b, mk::same(a, b));
}
pub fn bios_BiosRevision(a: &dmidecode::bios::BiosRevision, b: &dmidecode::bios::BiosRevision) {
    eq("h.bios.BiosRevision", a, b, a.major == b.major && a.minor == b.minor);
}
pub fn bios_FirmwareRevision(a: &dmidecode::bios::FirmwareRevision, b: &dmidecode::bios::FirmwareRevision) {
    eq("h.bios.FirmwareRevision", a, b, a.major == b.major && a.minor == b.minor);
}
pub fn bios_RomSize(a: &dmidecode::bios::RomSize, b: &dmidecode::bios::RomSize) {
    eq("h.bios.RomSize", a, b, a.basic == b.basic && a.extended == b.extended);
}
pub fn system_WakeupType(a: &dmidecode::system::WakeupType, b: &dmidecode::system::WakeupType) {
    eq("h.system.WakeupType", a, b, mk::same(a, b));
}
pub fn system_System(a: &dmidecode::system::System<'static>, b: &dmidecode::system::System<'static>) {
    eq("h.system.System", a, b, a.handle == b.handle && a.manufacturer == b.manufacturer && a.product == b.product && a.version == b.version && a.serial == b.serial && a.uuid == b.uuid && a.wakeup == b.wakeup && a.sku == b.sku && a.family == b.family);
}
pub fn baseboard_BoardType(a: &dmidecode::baseboard::BoardType, b: &dmidecode::baseboard::BoardType) {
    eq("h.baseboard.BoardType", a, b, mk::same(a, b));
}
pub fn baseboard_BaseBoard(a: &dmidecode::baseboard::BaseBoard<'static>, b: &dmidecode::baseboard::BaseBoard<'static>) {
    eq("h.baseboard.BaseBoard", a, b, a.handle == b.handle && a.manufacturer == b.manufacturer && a.product == b.product && a.version == b.version && a.serial == b.serial && a.asset == b.asset && a.feature_flags == b.feature_flags && a.location_in_chassis == b.location_in_chassis && a.chassis_handle == b.chassis_handle && a.board_type == b.board_type);
}
pub fn enclosure_Enclosure(a: &dmidecode::enclosure::Enclosure<'static>, o: &dmidecode::enclosure::Enclosure<'static>) {
    mk::assume(a.contained_elements.is_none() && o.contained_elements.is_none());
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.enclosure.Enclosure.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.manufacturer = o.manufacturer.clone();
        eq("h.enclosure.Enclosure.manufacturer", a, &b, a.manufacturer == o.manufacturer);
    }
    {
        let mut b = a.clone();
        b.chassis_lock = o.chassis_lock.clone();
        eq("h.enclosure.Enclosure.chassis_lock", a, &b, a.chassis_lock == o.chassis_lock);
    }
    {
        let mut b = a.clone();
        b.enclosure_type = o.enclosure_type.clone();
        eq("h.enclosure.Enclosure.enclosure_type", a, &b, a.enclosure_type == o.enclosure_type);
    }
    {
        let mut b = a.clone();
        b.version = o.version.clone();
        eq("h.enclosure.Enclosure.version", a, &b, a.version == o.version);
    }
    {
        let mut b = a.clone();
        b.serial_number = o.serial_number.clone();
        eq("h.enclosure.Enclosure.serial_number", a, &b, a.serial_number == o.serial_number);
    }
    {
        let mut b = a.clone();
        b.asset_tag_number = o.asset_tag_number.clone();
        eq("h.enclosure.Enclosure.asset_tag_number", a, &b, a.asset_tag_number == o.asset_tag_number);
    }
    {
        let mut b = a.clone();
        b.boot_up_state = o.boot_up_state.clone();
        eq("h.enclosure.Enclosure.boot_up_state", a, &b, a.boot_up_state == o.boot_up_state);
    }
    {
        let mut b = a.clone();
        b.power_supply_state = o.power_supply_state.clone();
        eq("h.enclosure.Enclosure.power_supply_state", a, &b, a.power_supply_state == o.power_supply_state);
    }
    {
        let mut b = a.clone();
        b.thermal_state = o.thermal_state.clone();
        eq("h.enclosure.Enclosure.thermal_state", a, &b, a.thermal_state == o.thermal_state);
    }
    {
        let mut b = a.clone();
        b.security_status = o.security_status.clone();
        eq("h.enclosure.Enclosure.security_status", a, &b, a.security_status == o.security_status);
    }
    {
        let mut b = a.clone();
        b.oem_defined = o.oem_defined.clone();
        eq("h.enclosure.Enclosure.oem_defined", a, &b, a.oem_defined == o.oem_defined);
    }
    {
        let mut b = a.clone();
        b.height = o.height.clone();
        eq("h.enclosure.Enclosure.height", a, &b, a.height == o.height);
    }
    {
        let mut b = a.clone();
        b.power_cords_number = o.power_cords_number.clone();
        eq("h.enclosure.Enclosure.power_cords_number", a, &b, a.power_cords_number == o.power_cords_number);
    }
    {
        let mut b = a.clone();
        b.sku_number = o.sku_number.clone();
        eq("h.enclosure.Enclosure.sku_number", a, &b, a.sku_number == o.sku_number);
    }
}
pub fn enclosure_EnclosureType(a: &dmidecode::enclosure::EnclosureType, b: &dmidecode::enclosure::EnclosureType) {
    eq("h.enclosure.EnclosureType", a, b, mk::same(a, b));
}
pub fn enclosure_State(a: &dmidecode::enclosure::State, b: &dmidecode::enclosure::State) {
    eq("h.enclosure.State", a, b, mk::same(a, b));
}
pub fn enclosure_SecurityStatus(a: &dmidecode::enclosure::SecurityStatus, b: &dmidecode::enclosure::SecurityStatus) {
    eq("h.enclosure.SecurityStatus", a, b, mk::same(a, b));
}
pub fn enclosure_ContainedElement(a: &dmidecode::enclosure::ContainedElement, b: &dmidecode::enclosure::ContainedElement) {
    eq("h.enclosure.ContainedElement", a, b, mk::same(a, b));
}
pub fn enclosure_ContainedElementType(a: &dmidecode::enclosure::ContainedElementType, b: &dmidecode::enclosure::ContainedElementType) {
    eq("h.enclosure.ContainedElementType", a, b, mk::same(a, b));
}
pub fn processor_ProcessorType(a: &dmidecode::processor::ProcessorType, b: &dmidecode::processor::ProcessorType) {
    eq("h.processor.ProcessorType", a, b, mk::same(a, b));
}
pub fn processor_Processor(a: &dmidecode::processor::Processor<'static>, o: &dmidecode::processor::Processor<'static>) {
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.processor.Processor.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.socket_designation = o.socket_designation.clone();
        eq("h.processor.Processor.socket_designation", a, &b, a.socket_designation == o.socket_designation);
    }
    {
        let mut b = a.clone();
        b.processor_type = o.processor_type.clone();
        eq("h.processor.Processor.processor_type", a, &b, a.processor_type == o.processor_type);
    }
    {
        let mut b = a.clone();
        b.processor_family = o.processor_family.clone();
        eq("h.processor.Processor.processor_family", a, &b, a.processor_family == o.processor_family);
    }
    {
        let mut b = a.clone();
        b.processor_manufacturer = o.processor_manufacturer.clone();
        eq("h.processor.Processor.processor_manufacturer", a, &b, a.processor_manufacturer == o.processor_manufacturer);
    }
    {
        let mut b = a.clone();
        b.processor_id = o.processor_id.clone();
        eq("h.processor.Processor.processor_id", a, &b, a.processor_id == o.processor_id);
    }
    {
        let mut b = a.clone();
        b.processor_version = o.processor_version.clone();
        eq("h.processor.Processor.processor_version", a, &b, a.processor_version == o.processor_version);
    }
    {
        let mut b = a.clone();
        b.voltage = o.voltage.clone();
        eq("h.processor.Processor.voltage", a, &b, a.voltage == o.voltage);
    }
    {
        let mut b = a.clone();
        b.external_clock = o.external_clock.clone();
        eq("h.processor.Processor.external_clock", a, &b, a.external_clock == o.external_clock);
    }
    {
        let mut b = a.clone();
        b.max_speed = o.max_speed.clone();
        eq("h.processor.Processor.max_speed", a, &b, a.max_speed == o.max_speed);
    }
    {
        let mut b = a.clone();
        b.current_speed = o.current_speed.clone();
        eq("h.processor.Processor.current_speed", a, &b, a.current_speed == o.current_speed);
    }
    {
        let mut b = a.clone();
        b.status = o.status.clone();
        eq("h.processor.Processor.status", a, &b, a.status == o.status);
    }
    {
        let mut b = a.clone();
        b.processor_upgrade = o.processor_upgrade.clone();
        eq("h.processor.Processor.processor_upgrade", a, &b, a.processor_upgrade == o.processor_upgrade);
    }
    {
        let mut b = a.clone();
        b.l1_cache_handle = o.l1_cache_handle.clone();
        eq("h.processor.Processor.l1_cache_handle", a, &b, a.l1_cache_handle == o.l1_cache_handle);
    }
    {
        let mut b = a.clone();
        b.l2_cache_handle = o.l2_cache_handle.clone();
        eq("h.processor.Processor.l2_cache_handle", a, &b, a.l2_cache_handle == o.l2_cache_handle);
    }
    {
        let mut b = a.clone();
        b.l3_cache_handle = o.l3_cache_handle.clone();
        eq("h.processor.Processor.l3_cache_handle", a, &b, a.l3_cache_handle == o.l3_cache_handle);
    }
    {
        let mut b = a.clone();
        b.serial_number = o.serial_number.clone();
        eq("h.processor.Processor.serial_number", a, &b, a.serial_number == o.serial_number);
    }
    {
        let mut b = a.clone();
        b.asset_tag = o.asset_tag.clone();
        eq("h.processor.Processor.asset_tag", a, &b, a.asset_tag == o.asset_tag);
    }
    {
        let mut b = a.clone();
        b.part_number = o.part_number.clone();
        eq("h.processor.Processor.part_number", a, &b, a.part_number == o.part_number);
    }
    {
        let mut b = a.clone();
        b.core_count = o.core_count.clone();
        eq("h.processor.Processor.core_count", a, &b, a.core_count == o.core_count);
    }
    {
        let mut b = a.clone();
        b.core_enabled = o.core_enabled.clone();
        eq("h.processor.Processor.core_enabled", a, &b, a.core_enabled == o.core_enabled);
    }
    {
        let mut b = a.clone();
        b.thread_count = o.thread_count.clone();
        eq("h.processor.Processor.thread_count", a, &b, a.thread_count == o.thread_count);
    }
    {
        let mut b = a.clone();
        b.processor_characteristics = o.processor_characteristics.clone();
        eq("h.processor.Processor.processor_characteristics", a, &b, a.processor_characteristics == o.processor_characteristics);
    }
}
pub fn processor_ProcessorFamily(a: &dmidecode::processor::ProcessorFamily, b: &dmidecode::processor::ProcessorFamily) {
    eq("h.processor.ProcessorFamily", a, b, mk::same(a, b));
}
pub fn processor_Voltage(a: &dmidecode::processor::Voltage, b: &dmidecode::processor::Voltage) {
    eq("h.processor.Voltage", a, b, mk::same(a, b));
}
pub fn processor_ProcessorUpgrade(a: &dmidecode::processor::ProcessorUpgrade, b: &dmidecode::processor::ProcessorUpgrade) {
    eq("h.processor.ProcessorUpgrade", a, b, mk::same(a, b));
}
pub fn cache_Cache(a: &dmidecode::cache::Cache<'static>, o: &dmidecode::cache::Cache<'static>) {
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.cache.Cache.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.socket_designation = o.socket_designation.clone();
        eq("h.cache.Cache.socket_designation", a, &b, a.socket_designation == o.socket_designation);
    }
    {
        let mut b = a.clone();
        b.cache_configuration = o.cache_configuration.clone();
        eq("h.cache.Cache.cache_configuration", a, &b, a.cache_configuration == o.cache_configuration);
    }
    {
        let mut b = a.clone();
        b.maximum_cache_size = o.maximum_cache_size.clone();
        eq("h.cache.Cache.maximum_cache_size", a, &b, a.maximum_cache_size == o.maximum_cache_size);
    }
    {
        let mut b = a.clone();
        b.installed_size = o.installed_size.clone();
        eq("h.cache.Cache.installed_size", a, &b, a.installed_size == o.installed_size);
    }
    {
        let mut b = a.clone();
        b.supported_sram_type = o.supported_sram_type.clone();
        eq("h.cache.Cache.supported_sram_type", a, &b, a.supported_sram_type == o.supported_sram_type);
    }
    {
        let mut b = a.clone();
        b.current_sram_type = o.current_sram_type.clone();
        eq("h.cache.Cache.current_sram_type", a, &b, a.current_sram_type == o.current_sram_type);
    }
    {
        let mut b = a.clone();
        b.cache_speed = o.cache_speed.clone();
        eq("h.cache.Cache.cache_speed", a, &b, a.cache_speed == o.cache_speed);
    }
    {
        let mut b = a.clone();
        b.error_correction_type = o.error_correction_type.clone();
        eq("h.cache.Cache.error_correction_type", a, &b, a.error_correction_type == o.error_correction_type);
    }
    {
        let mut b = a.clone();
        b.system_cache_type = o.system_cache_type.clone();
        eq("h.cache.Cache.system_cache_type", a, &b, a.system_cache_type == o.system_cache_type);
    }
    {
        let mut b = a.clone();
        b.associativity = o.associativity.clone();
        eq("h.cache.Cache.associativity", a, &b, a.associativity == o.associativity);
    }
    {
        let mut b = a.clone();
        b.maximum_cache_size_2 = o.maximum_cache_size_2.clone();
        eq("h.cache.Cache.maximum_cache_size_2", a, &b, a.maximum_cache_size_2 == o.maximum_cache_size_2);
    }
    {
        let mut b = a.clone();
        b.installed_size_2 = o.installed_size_2.clone();
        eq("h.cache.Cache.installed_size_2", a, &b, a.installed_size_2 == o.installed_size_2);
    }
}
pub fn cache_CacheConfiguration(a: &dmidecode::cache::CacheConfiguration, b: &dmidecode::cache::CacheConfiguration) {
    eq("h.cache.CacheConfiguration", a, b, mk::same(a, b));
}
pub fn cache_CacheLevel(a: &dmidecode::cache::CacheLevel, b: &dmidecode::cache::CacheLevel) {
    eq("h.cache.CacheLevel", a, b, mk::same(a, b));
}
pub fn cache_CacheLocation(a: &dmidecode::cache::CacheLocation, b: &dmidecode::cache::CacheLocation) {
    eq("h.cache.CacheLocation", a, b, mk::same(a, b));
}
pub fn cache_CacheOperationalMode(a: &dmidecode::cache::CacheOperationalMode, b: &dmidecode::cache::CacheOperationalMode) {
    eq("h.cache.CacheOperationalMode", a, b, mk::same(a, b));
}
pub fn cache_CacheSize(a: &dmidecode::cache::CacheSize, b: &dmidecode::cache::CacheSize) {
    eq("h.cache.CacheSize", a, b, mk::same(a, b));
}
pub fn cache_CacheErrorCorrectionType(a: &dmidecode::cache::CacheErrorCorrectionType, b: &dmidecode::cache::CacheErrorCorrectionType) {
    eq("h.cache.CacheErrorCorrectionType", a, b, mk::same(a, b));
}
pub fn cache_SystemCacheType(a: &dmidecode::cache::SystemCacheType, b: &dmidecode::cache::SystemCacheType) {
    eq("h.cache.SystemCacheType", a, b, mk::same(a, b));
}
pub fn cache_CacheAssociativity(a: &dmidecode::cache::CacheAssociativity, b: &dmidecode::cache::CacheAssociativity) {
    eq("h.cache.CacheAssociativity", a, b, mk::same(a, b));
}
pub fn cache_CacheSize2(a: &dmidecode::cache::CacheSize2, b: &dmidecode::cache::CacheSize2) {
    eq("h.cache.CacheSize2", a, b, mk::same(a, b));
}
pub fn port_connector_PortConnector(a: &dmidecode::port_connector::PortConnector<'static>, b: &dmidecode::port_connector::PortConnector<'static>) {
    eq("h.port_connector.PortConnector", a, b, a.handle == b.handle && a.internal_reference_designator == b.internal_reference_designator && a.internal_connector_type == b.internal_connector_type && a.external_reference_designator == b.external_reference_designator && a.external_connector_type == b.external_connector_type && a.port_type == b.port_type);
}
pub fn port_connector_ConnectorType(a: &dmidecode::port_connector::ConnectorType, b: &dmidecode::port_connector::ConnectorType) {
    eq("h.port_connector.ConnectorType", a, b, mk::same(a, b));
}
pub fn port_connector_PortType(a: &dmidecode::port_connector::PortType, b: &dmidecode::port_connector::PortType) {
    eq("h.port_connector.PortType", a, b, mk::same(a, b));
}
pub fn system_slots_SystemSlots(a: &dmidecode::system_slots::SystemSlots<'static>, o: &dmidecode::system_slots::SystemSlots<'static>) {
    mk::assume(a.peer_devices.is_none() && o.peer_devices.is_none());
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.system_slots.SystemSlots.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.slot_designation = o.slot_designation.clone();
        eq("h.system_slots.SystemSlots.slot_designation", a, &b, a.slot_designation == o.slot_designation);
    }
    {
        let mut b = a.clone();
        b.slot_type = o.slot_type.clone();
        eq("h.system_slots.SystemSlots.slot_type", a, &b, a.slot_type == o.slot_type);
    }
    {
        let mut b = a.clone();
        b.slot_data_bus_width = o.slot_data_bus_width.clone();
        eq("h.system_slots.SystemSlots.slot_data_bus_width", a, &b, a.slot_data_bus_width == o.slot_data_bus_width);
    }
    {
        let mut b = a.clone();
        b.current_usage = o.current_usage.clone();
        eq("h.system_slots.SystemSlots.current_usage", a, &b, a.current_usage == o.current_usage);
    }
    {
        let mut b = a.clone();
        b.slot_length = o.slot_length.clone();
        eq("h.system_slots.SystemSlots.slot_length", a, &b, a.slot_length == o.slot_length);
    }
    {
        let mut b = a.clone();
        b.slot_id = o.slot_id.clone();
        eq("h.system_slots.SystemSlots.slot_id", a, &b, a.slot_id == o.slot_id);
    }
    {
        let mut b = a.clone();
        b.slot_characteristics_1 = o.slot_characteristics_1.clone();
        eq("h.system_slots.SystemSlots.slot_characteristics_1", a, &b, a.slot_characteristics_1 == o.slot_characteristics_1);
    }
    {
        let mut b = a.clone();
        b.slot_characteristics_2 = o.slot_characteristics_2.clone();
        eq("h.system_slots.SystemSlots.slot_characteristics_2", a, &b, a.slot_characteristics_2 == o.slot_characteristics_2);
    }
    {
        let mut b = a.clone();
        b.segment_group_number = o.segment_group_number.clone();
        eq("h.system_slots.SystemSlots.segment_group_number", a, &b, a.segment_group_number == o.segment_group_number);
    }
    {
        let mut b = a.clone();
        b.bus_number = o.bus_number.clone();
        eq("h.system_slots.SystemSlots.bus_number", a, &b, a.bus_number == o.bus_number);
    }
    {
        let mut b = a.clone();
        b.device_and_function_number = o.device_and_function_number.clone();
        eq("h.system_slots.SystemSlots.device_and_function_number", a, &b, a.device_and_function_number == o.device_and_function_number);
    }
    {
        let mut b = a.clone();
        b.data_bus_width = o.data_bus_width.clone();
        eq("h.system_slots.SystemSlots.data_bus_width", a, &b, a.data_bus_width == o.data_bus_width);
    }
    {
        let mut b = a.clone();
        b.slot_information = o.slot_information.clone();
        eq("h.system_slots.SystemSlots.slot_information", a, &b, a.slot_information == o.slot_information);
    }
    {
        let mut b = a.clone();
        b.slot_physical_width = o.slot_physical_width.clone();
        eq("h.system_slots.SystemSlots.slot_physical_width", a, &b, a.slot_physical_width == o.slot_physical_width);
    }
    {
        let mut b = a.clone();
        b.slot_pitch = o.slot_pitch.clone();
        eq("h.system_slots.SystemSlots.slot_pitch", a, &b, a.slot_pitch == o.slot_pitch);
    }
}
pub fn system_slots_SlotType(a: &dmidecode::system_slots::SlotType, b: &dmidecode::system_slots::SlotType) {
    eq("h.system_slots.SlotType", a, b, mk::same(a, b));
}
pub fn system_slots_SlotWidth(a: &dmidecode::system_slots::SlotWidth, b: &dmidecode::system_slots::SlotWidth) {
    eq("h.system_slots.SlotWidth", a, b, mk::same(a, b));
}
pub fn system_slots_CurrentUsage(a: &dmidecode::system_slots::CurrentUsage, b: &dmidecode::system_slots::CurrentUsage) {
    eq("h.system_slots.CurrentUsage", a, b, mk::same(a, b));
}
pub fn system_slots_SlotLength(a: &dmidecode::system_slots::SlotLength, b: &dmidecode::system_slots::SlotLength) {
    eq("h.system_slots.SlotLength", a, b, mk::same(a, b));
}
pub fn system_slots_SlotCharacteristics1(a: &dmidecode::system_slots::SlotCharacteristics1, b: &dmidecode::system_slots::SlotCharacteristics1) {
    eq("h.system_slots.SlotCharacteristics1", a, b, mk::same(a, b));
}
pub fn system_slots_SlotCharacteristics2(a: &dmidecode::system_slots::SlotCharacteristics2, b: &dmidecode::system_slots::SlotCharacteristics2) {
    eq("h.system_slots.SlotCharacteristics2", a, b, mk::same(a, b));
}
pub fn system_slots_Device(a: &dmidecode::system_slots::Device, b: &dmidecode::system_slots::Device) {
    eq("h.system_slots.Device", a, b, a.segment_group_number == b.segment_group_number && a.bus_number == b.bus_number && a.device_and_function_number == b.device_and_function_number && a.data_bus_width == b.data_bus_width);
}
pub fn system_slots_DeviceAndFunctionNumber(a: &dmidecode::system_slots::DeviceAndFunctionNumber, b: &dmidecode::system_slots::DeviceAndFunctionNumber) {
    eq("h.system_slots.DeviceAndFunctionNumber", a, b, mk::same(a, b));
}
pub fn system_slots_SlotPitch(a: &dmidecode::system_slots::SlotPitch, b: &dmidecode::system_slots::SlotPitch) {
    eq("h.system_slots.SlotPitch", a, b, mk::same(a, b));
}
pub fn oem_strings_OemStrings(a: &dmidecode::oem_strings::OemStrings<'static>, b: &dmidecode::oem_strings::OemStrings<'static>) {
    eq("h.oem_strings.OemStrings", a, b, a.handle == b.handle && a.strings == b.strings);
}
pub fn system_configuration_options_SystemConfigurationOptions(a: &dmidecode::system_configuration_options::SystemConfigurationOptions<'static>, b: &dmidecode::system_configuration_options::SystemConfigurationOptions<'static>) {
    eq("h.system_configuration_options.SystemConfigurationOptions", a, b, a.handle == b.handle && a.strings == b.strings);
}
pub fn bios_language_BiosLanguage(a: &dmidecode::bios_language::BiosLanguage<'static>, b: &dmidecode::bios_language::BiosLanguage<'static>) {
    eq("h.bios_language.BiosLanguage", a, b, a.handle == b.handle && a.installable_languages == b.installable_languages && a.flags == b.flags && a.current_language == b.current_language);
}
pub fn bios_language_LanguageFlags(a: &dmidecode::bios_language::LanguageFlags, b: &dmidecode::bios_language::LanguageFlags) {
    eq("h.bios_language.LanguageFlags", a, b, mk::same(a, b));
}
pub fn group_associations_GroupAssociations(a: &dmidecode::group_associations::GroupAssociations<'static>, b: &dmidecode::group_associations::GroupAssociations<'static>) {
    eq("h.group_associations.GroupAssociations", a, b, a.handle == b.handle && a.group_name == b.group_name && a.items == b.items);
}
pub fn group_associations_GroupItem(a: &dmidecode::group_associations::GroupItem, b: &dmidecode::group_associations::GroupItem) {
    eq("h.group_associations.GroupItem", a, b, a.type_ == b.type_ && a.handle == b.handle);
}
pub fn physical_memory_array_MemoryArrayLocation(a: &dmidecode::physical_memory_array::MemoryArrayLocation, b: &dmidecode::physical_memory_array::MemoryArrayLocation) {
    eq("h.physical_memory_array.MemoryArrayLocation", a, b, mk::same(a, b));
}
pub fn physical_memory_array_MemoryArrayUse(a: &dmidecode::physical_memory_array::MemoryArrayUse, b: &dmidecode::physical_memory_array::MemoryArrayUse) {
    eq("h.physical_memory_array.MemoryArrayUse", a, b, mk::same(a, b));
}
pub fn physical_memory_array_MemoryArrayErrorCorrectionTypes(a: &dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes, b: &dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes) {
    eq("h.physical_memory_array.MemoryArrayErrorCorrectionTypes", a, b, mk::same(a, b));
}
pub fn physical_memory_array_PhysicalMemoryArray(a: &dmidecode::physical_memory_array::PhysicalMemoryArray, b: &dmidecode::physical_memory_array::PhysicalMemoryArray) {
    eq("h.physical_memory_array.PhysicalMemoryArray", a, b, a.handle == b.handle && a.location == b.location && a.r#use == b.r#use && a.memory_error_correction == b.memory_error_correction && a.maximum_capacity == b.maximum_capacity && a.memory_error_information_handle == b.memory_error_information_handle && a.number_of_memory_devices == b.number_of_memory_devices && a.extended_maximum_capacity == b.extended_maximum_capacity);
}
pub fn memory_device_ErrorGranularity(a: &dmidecode::memory_device::ErrorGranularity, b: &dmidecode::memory_device::ErrorGranularity) {
    eq("h.memory_device.ErrorGranularity", a, b, mk::same(a, b));
}
pub fn memory_device_ErrorOperation(a: &dmidecode::memory_device::ErrorOperation, b: &dmidecode::memory_device::ErrorOperation) {
    eq("h.memory_device.ErrorOperation", a, b, mk::same(a, b));
}
pub fn memory_device_ErrorType(a: &dmidecode::memory_device::ErrorType, b: &dmidecode::memory_device::ErrorType) {
    eq("h.memory_device.ErrorType", a, b, mk::same(a, b));
}
pub fn memory_device_FormFactor(a: &dmidecode::memory_device::FormFactor, b: &dmidecode::memory_device::FormFactor) {
    eq("h.memory_device.FormFactor", a, b, mk::same(a, b));
}
pub fn memory_device_MemoryTechnology(a: &dmidecode::memory_device::MemoryTechnology, b: &dmidecode::memory_device::MemoryTechnology) {
    eq("h.memory_device.MemoryTechnology", a, b, mk::same(a, b));
}
pub fn memory_device_Type(a: &dmidecode::memory_device::Type, b: &dmidecode::memory_device::Type) {
    eq("h.memory_device.Type", a, b, mk::same(a, b));
}
pub fn memory_device_MemoryDevice(a: &dmidecode::memory_device::MemoryDevice<'static>, o: &dmidecode::memory_device::MemoryDevice<'static>) {
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.memory_device.MemoryDevice.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.physical_memory_handle = o.physical_memory_handle.clone();
        eq("h.memory_device.MemoryDevice.physical_memory_handle", a, &b, a.physical_memory_handle == o.physical_memory_handle);
    }
    {
        let mut b = a.clone();
        b.memory_error_handle = o.memory_error_handle.clone();
        eq("h.memory_device.MemoryDevice.memory_error_handle", a, &b, a.memory_error_handle == o.memory_error_handle);
    }
    {
        let mut b = a.clone();
        b.total_width = o.total_width.clone();
        eq("h.memory_device.MemoryDevice.total_width", a, &b, a.total_width == o.total_width);
    }
    {
        let mut b = a.clone();
        b.data_width = o.data_width.clone();
        eq("h.memory_device.MemoryDevice.data_width", a, &b, a.data_width == o.data_width);
    }
    {
        let mut b = a.clone();
        b.size = o.size.clone();
        eq("h.memory_device.MemoryDevice.size", a, &b, a.size == o.size);
    }
    {
        let mut b = a.clone();
        b.form_factor = o.form_factor.clone();
        eq("h.memory_device.MemoryDevice.form_factor", a, &b, a.form_factor == o.form_factor);
    }
    {
        let mut b = a.clone();
        b.device_set = o.device_set.clone();
        eq("h.memory_device.MemoryDevice.device_set", a, &b, a.device_set == o.device_set);
    }
    {
        let mut b = a.clone();
        b.device_locator = o.device_locator.clone();
        eq("h.memory_device.MemoryDevice.device_locator", a, &b, a.device_locator == o.device_locator);
    }
    {
        let mut b = a.clone();
        b.bank_locator = o.bank_locator.clone();
        eq("h.memory_device.MemoryDevice.bank_locator", a, &b, a.bank_locator == o.bank_locator);
    }
    {
        let mut b = a.clone();
        b.memory_type = o.memory_type.clone();
        eq("h.memory_device.MemoryDevice.memory_type", a, &b, a.memory_type == o.memory_type);
    }
    {
        let mut b = a.clone();
        b.type_detail = o.type_detail.clone();
        eq("h.memory_device.MemoryDevice.type_detail", a, &b, a.type_detail == o.type_detail);
    }
    {
        let mut b = a.clone();
        b.speed = o.speed.clone();
        eq("h.memory_device.MemoryDevice.speed", a, &b, a.speed == o.speed);
    }
    {
        let mut b = a.clone();
        b.manufacturer = o.manufacturer.clone();
        eq("h.memory_device.MemoryDevice.manufacturer", a, &b, a.manufacturer == o.manufacturer);
    }
    {
        let mut b = a.clone();
        b.serial = o.serial.clone();
        eq("h.memory_device.MemoryDevice.serial", a, &b, a.serial == o.serial);
    }
    {
        let mut b = a.clone();
        b.asset_tag = o.asset_tag.clone();
        eq("h.memory_device.MemoryDevice.asset_tag", a, &b, a.asset_tag == o.asset_tag);
    }
    {
        let mut b = a.clone();
        b.part_number = o.part_number.clone();
        eq("h.memory_device.MemoryDevice.part_number", a, &b, a.part_number == o.part_number);
    }
    {
        let mut b = a.clone();
        b.attributes = o.attributes.clone();
        eq("h.memory_device.MemoryDevice.attributes", a, &b, a.attributes == o.attributes);
    }
    {
        let mut b = a.clone();
        b.extended_size = o.extended_size.clone();
        eq("h.memory_device.MemoryDevice.extended_size", a, &b, a.extended_size == o.extended_size);
    }
    {
        let mut b = a.clone();
        b.configured_memory_speed = o.configured_memory_speed.clone();
        eq("h.memory_device.MemoryDevice.configured_memory_speed", a, &b, a.configured_memory_speed == o.configured_memory_speed);
    }
    {
        let mut b = a.clone();
        b.minimum_voltage = o.minimum_voltage.clone();
        eq("h.memory_device.MemoryDevice.minimum_voltage", a, &b, a.minimum_voltage == o.minimum_voltage);
    }
    {
        let mut b = a.clone();
        b.maximum_voltage = o.maximum_voltage.clone();
        eq("h.memory_device.MemoryDevice.maximum_voltage", a, &b, a.maximum_voltage == o.maximum_voltage);
    }
    {
        let mut b = a.clone();
        b.configured_voltage = o.configured_voltage.clone();
        eq("h.memory_device.MemoryDevice.configured_voltage", a, &b, a.configured_voltage == o.configured_voltage);
    }
    {
        let mut b = a.clone();
        b.memory_technology = o.memory_technology.clone();
        eq("h.memory_device.MemoryDevice.memory_technology", a, &b, a.memory_technology == o.memory_technology);
    }
    {
        let mut b = a.clone();
        b.operating_mode_capability = o.operating_mode_capability.clone();
        eq("h.memory_device.MemoryDevice.operating_mode_capability", a, &b, a.operating_mode_capability == o.operating_mode_capability);
    }
    {
        let mut b = a.clone();
        b.firmware_version = o.firmware_version.clone();
        eq("h.memory_device.MemoryDevice.firmware_version", a, &b, a.firmware_version == o.firmware_version);
    }
    {
        let mut b = a.clone();
        b.module_manufacturer = o.module_manufacturer.clone();
        eq("h.memory_device.MemoryDevice.module_manufacturer", a, &b, a.module_manufacturer == o.module_manufacturer);
    }
    {
        let mut b = a.clone();
        b.module_product_id = o.module_product_id.clone();
        eq("h.memory_device.MemoryDevice.module_product_id", a, &b, a.module_product_id == o.module_product_id);
    }
    {
        let mut b = a.clone();
        b.memory_subsystem_controller_manufacturer_id = o.memory_subsystem_controller_manufacturer_id.clone();
        eq("h.memory_device.MemoryDevice.memory_subsystem_controller_manufacturer_id", a, &b, a.memory_subsystem_controller_manufacturer_id == o.memory_subsystem_controller_manufacturer_id);
    }
    {
        let mut b = a.clone();
        b.memory_subsystem_controller_product_id = o.memory_subsystem_controller_product_id.clone();
        eq("h.memory_device.MemoryDevice.memory_subsystem_controller_product_id", a, &b, a.memory_subsystem_controller_product_id == o.memory_subsystem_controller_product_id);
    }
    {
        let mut b = a.clone();
        b.non_volatile_size = o.non_volatile_size.clone();
        eq("h.memory_device.MemoryDevice.non_volatile_size", a, &b, a.non_volatile_size == o.non_volatile_size);
    }
    {
        let mut b = a.clone();
        b.volatile_size = o.volatile_size.clone();
        eq("h.memory_device.MemoryDevice.volatile_size", a, &b, a.volatile_size == o.volatile_size);
    }
    {
        let mut b = a.clone();
        b.cache_size = o.cache_size.clone();
        eq("h.memory_device.MemoryDevice.cache_size", a, &b, a.cache_size == o.cache_size);
    }
    {
        let mut b = a.clone();
        b.logical_size = o.logical_size.clone();
        eq("h.memory_device.MemoryDevice.logical_size", a, &b, a.logical_size == o.logical_size);
    }
    {
        let mut b = a.clone();
        b.extended_speed = o.extended_speed.clone();
        eq("h.memory_device.MemoryDevice.extended_speed", a, &b, a.extended_speed == o.extended_speed);
    }
    {
        let mut b = a.clone();
        b.extended_configured_memory_speed = o.extended_configured_memory_speed.clone();
        eq("h.memory_device.MemoryDevice.extended_configured_memory_speed", a, &b, a.extended_configured_memory_speed == o.extended_configured_memory_speed);
    }
}
pub fn memory_error_32_MemoryError32(a: &dmidecode::memory_error_32::MemoryError32, b: &dmidecode::memory_error_32::MemoryError32) {
    eq("h.memory_error_32.MemoryError32", a, b, a.handle == b.handle && a.error_type == b.error_type && a.error_granularity == b.error_granularity && a.error_operation == b.error_operation && a.vendor_syndrome == b.vendor_syndrome && a.memory_array_error_address == b.memory_array_error_address && a.device_error_address == b.device_error_address && a.error_resolution == b.error_resolution);
}
pub fn memory_error_32_ErrorType(a: &dmidecode::memory_error_32::ErrorType, b: &dmidecode::memory_error_32::ErrorType) {
    eq("h.memory_error_32.ErrorType", a, b, mk::same(a, b));
}
pub fn memory_error_32_ErrorGranularity(a: &dmidecode::memory_error_32::ErrorGranularity, b: &dmidecode::memory_error_32::ErrorGranularity) {
    eq("h.memory_error_32.ErrorGranularity", a, b, mk::same(a, b));
}
pub fn memory_error_32_ErrorOperation(a: &dmidecode::memory_error_32::ErrorOperation, b: &dmidecode::memory_error_32::ErrorOperation) {
    eq("h.memory_error_32.ErrorOperation", a, b, mk::same(a, b));
}
pub fn memory_array_mapped_address_MemoryArrayMappedAddress(a: &dmidecode::memory_array_mapped_address::MemoryArrayMappedAddress, b: &dmidecode::memory_array_mapped_address::MemoryArrayMappedAddress) {
    eq("h.memory_array_mapped_address.MemoryArrayMappedAddress", a, b, a.handle == b.handle && a.starting_address == b.starting_address && a.ending_address == b.ending_address && a.memory_array_handle == b.memory_array_handle && a.partition_width == b.partition_width && a.extended_starting_address == b.extended_starting_address && a.extended_ending_address == b.extended_ending_address);
}
pub fn memory_device_mapped_address_MemoryDeviceMappedAddress(a: &dmidecode::memory_device_mapped_address::MemoryDeviceMappedAddress, b: &dmidecode::memory_device_mapped_address::MemoryDeviceMappedAddress) {
    eq("h.memory_device_mapped_address.MemoryDeviceMappedAddress", a, b, a.handle == b.handle && a.starting_address == b.starting_address && a.ending_address == b.ending_address && a.memory_device_handle == b.memory_device_handle && a.memory_array_mapped_address_handle == b.memory_array_mapped_address_handle && a.partition_row_position == b.partition_row_position && a.interleave_position == b.interleave_position && a.interleaved_data_depth == b.interleaved_data_depth && a.extended_starting_address == b.extended_starting_address && a.extended_ending_address == b.extended_ending_address);
}
pub fn built_in_pointing_device_BuiltInPointingDevice(a: &dmidecode::built_in_pointing_device::BuiltInPointingDevice, b: &dmidecode::built_in_pointing_device::BuiltInPointingDevice) {
    eq("h.built_in_pointing_device.BuiltInPointingDevice", a, b, a.handle == b.handle && a.type_ == b.type_ && a.interface == b.interface && a.number_of_buttons == b.number_of_buttons);
}
pub fn built_in_pointing_device_Type(a: &dmidecode::built_in_pointing_device::Type, b: &dmidecode::built_in_pointing_device::Type) {
    eq("h.built_in_pointing_device.Type", a, b, mk::same(a, b));
}
pub fn built_in_pointing_device_Interface(a: &dmidecode::built_in_pointing_device::Interface, b: &dmidecode::built_in_pointing_device::Interface) {
    eq("h.built_in_pointing_device.Interface", a, b, mk::same(a, b));
}
pub fn portable_battery_PortableBattery(a: &dmidecode::portable_battery::PortableBattery<'static>, b: &dmidecode::portable_battery::PortableBattery<'static>) {
    eq("h.portable_battery.PortableBattery", a, b, a.handle == b.handle && a.location == b.location && a.manufacturer == b.manufacturer && a.manufacture_date == b.manufacture_date && a.serial_number == b.serial_number && a.device_name == b.device_name && a.device_chemistry == b.device_chemistry && a.design_capacity == b.design_capacity && a.design_voltage == b.design_voltage && a.sbds_version_number == b.sbds_version_number && a.maximum_error_in_battery_data == b.maximum_error_in_battery_data && a.oem_specific == b.oem_specific);
}
pub fn portable_battery_ManufactureDate(a: &dmidecode::portable_battery::ManufactureDate<'static>, b: &dmidecode::portable_battery::ManufactureDate<'static>) {
    eq("h.portable_battery.ManufactureDate", a, b, mk::same(a, b));
}
pub fn portable_battery_SerialNumber(a: &dmidecode::portable_battery::SerialNumber<'static>, b: &dmidecode::portable_battery::SerialNumber<'static>) {
    eq("h.portable_battery.SerialNumber", a, b, mk::same(a, b));
}
pub fn portable_battery_DesignCapacity(a: &dmidecode::portable_battery::DesignCapacity, b: &dmidecode::portable_battery::DesignCapacity) {
    eq("h.portable_battery.DesignCapacity", a, b, mk::same(a, b));
}
pub fn portable_battery_DeviceChemistry(a: &dmidecode::portable_battery::DeviceChemistry<'static>, b: &dmidecode::portable_battery::DeviceChemistry<'static>) {
    eq("h.portable_battery.DeviceChemistry", a, b, mk::same(a, b));
}
pub fn log_record_format_LogRecordFormat(a: &dmidecode::system_event_log::log_record_format::LogRecordFormat, b: &dmidecode::system_event_log::log_record_format::LogRecordFormat) {
    eq("h.log_record_format.LogRecordFormat", a, b, mk::same(a, b));
}
pub fn log_record_format_Datetime(a: &dmidecode::system_event_log::log_record_format::Datetime, b: &dmidecode::system_event_log::log_record_format::Datetime) {
    eq("h.log_record_format.Datetime", a, b, mk::same(a, b));
}
pub fn log_record_format_LogVariableData(a: &dmidecode::system_event_log::log_record_format::LogVariableData, b: &dmidecode::system_event_log::log_record_format::LogVariableData) {
    eq("h.log_record_format.LogVariableData", a, b, mk::same(a, b));
}
pub fn log_record_format_EventLogType(a: &dmidecode::system_event_log::log_record_format::EventLogType, b: &dmidecode::system_event_log::log_record_format::EventLogType) {
    eq("h.log_record_format.EventLogType", a, b, mk::same(a, b));
}
pub fn log_record_format_VariableDataFormatType(a: &dmidecode::system_event_log::log_record_format::VariableDataFormatType, b: &dmidecode::system_event_log::log_record_format::VariableDataFormatType) {
    eq("h.log_record_format.VariableDataFormatType", a, b, mk::same(a, b));
}
pub fn log_record_format_MultipleEvent(a: &dmidecode::system_event_log::log_record_format::MultipleEvent, b: &dmidecode::system_event_log::log_record_format::MultipleEvent) {
    eq("h.log_record_format.MultipleEvent", a, b, a.time_window == b.time_window && a.count_increment == b.count_increment);
}
pub fn log_record_format_PostResults(a: &dmidecode::system_event_log::log_record_format::PostResults, b: &dmidecode::system_event_log::log_record_format::PostResults) {
    eq("h.log_record_format.PostResults", a, b, mk::same(a, b));
}
pub fn log_record_format_SystemManagementType(a: &dmidecode::system_event_log::log_record_format::SystemManagementType, b: &dmidecode::system_event_log::log_record_format::SystemManagementType) {
    eq("h.log_record_format.SystemManagementType", a, b, mk::same(a, b));
}
pub fn system_event_log_SystemEventLog(a: &dmidecode::system_event_log::SystemEventLog<'static>, o: &dmidecode::system_event_log::SystemEventLog<'static>) {
    mk::assume(a.supported_event_log_type_descriptors.is_none() && o.supported_event_log_type_descriptors.is_none());
    {
        let mut b = a.clone();
        b.handle = o.handle.clone();
        eq("h.system_event_log.SystemEventLog.handle", a, &b, a.handle == o.handle);
    }
    {
        let mut b = a.clone();
        b.log_area_length = o.log_area_length.clone();
        eq("h.system_event_log.SystemEventLog.log_area_length", a, &b, a.log_area_length == o.log_area_length);
    }
    {
        let mut b = a.clone();
        b.log_header_start_offset = o.log_header_start_offset.clone();
        eq("h.system_event_log.SystemEventLog.log_header_start_offset", a, &b, a.log_header_start_offset == o.log_header_start_offset);
    }
    {
        let mut b = a.clone();
        b.log_data_start_offset = o.log_data_start_offset.clone();
        eq("h.system_event_log.SystemEventLog.log_data_start_offset", a, &b, a.log_data_start_offset == o.log_data_start_offset);
    }
    {
        let mut b = a.clone();
        b.access_method = o.access_method.clone();
        eq("h.system_event_log.SystemEventLog.access_method", a, &b, a.access_method == o.access_method);
    }
    {
        let mut b = a.clone();
        b.log_status = o.log_status.clone();
        eq("h.system_event_log.SystemEventLog.log_status", a, &b, a.log_status == o.log_status);
    }
    {
        let mut b = a.clone();
        b.log_change_token = o.log_change_token.clone();
        eq("h.system_event_log.SystemEventLog.log_change_token", a, &b, a.log_change_token == o.log_change_token);
    }
    {
        let mut b = a.clone();
        b.log_header_format = o.log_header_format.clone();
        eq("h.system_event_log.SystemEventLog.log_header_format", a, &b, a.log_header_format == o.log_header_format);
    }
}
pub fn system_event_log_AccessMethod(a: &dmidecode::system_event_log::AccessMethod, b: &dmidecode::system_event_log::AccessMethod) {
    eq("h.system_event_log.AccessMethod", a, b, mk::same(a, b));
}
pub fn system_event_log_LogStatus(a: &dmidecode::system_event_log::LogStatus, b: &dmidecode::system_event_log::LogStatus) {
    eq("h.system_event_log.LogStatus", a, b, mk::same(a, b));
}
pub fn system_event_log_LogHeaderFormat(a: &dmidecode::system_event_log::LogHeaderFormat, b: &dmidecode::system_event_log::LogHeaderFormat) {
    eq("h.system_event_log.LogHeaderFormat", a, b, mk::same(a, b));
}
pub fn system_event_log_EventLogTypeDescriptor(a: &dmidecode::system_event_log::EventLogTypeDescriptor, b: &dmidecode::system_event_log::EventLogTypeDescriptor) {
    eq("h.system_event_log.EventLogTypeDescriptor", a, b, a.log_type == b.log_type && a.variable_data_format_type == b.variable_data_format_type);
}
