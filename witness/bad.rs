//! Programs that must not compile, one per name: with `--cfg bad` something borrowed outlives the buffer or the
//! buffer changes while something borrows from it. Without it each of them compiles. (Nothing here is run.)
#![allow(dead_code, unused)]
use dmidecode::*;
fn keep<T>(_: T) {}
fn table() -> Vec<u8> { Vec::new() }

#[cfg(gone_walk)]
fn gone_walk(ep: EntryPoint) {
    let r;
    let b = table();
    r = ep.structures(&b);
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_item)]
fn gone_item(ep: EntryPoint) {
    let r;
    let b = table();
    r = ep.structures(&b).next();
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_raw)]
fn gone_raw(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => Some(r), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_raw_data)]
fn gone_raw_data(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => Some(r.data), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_raw_string)]
fn gone_raw_string(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => r.find_string(1).ok(), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_raw_get_string)]
fn gone_raw_get_string(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => r.get_string(4).ok(), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_raw_slice)]
fn gone_raw_slice(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => r.get_slice(4, 1), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_oem)]
fn gone_oem(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::OemStrings(r))) => r.strings.clone().next(), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_options)]
fn gone_options(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::SystemConfigurationOptions(r))) => r.strings.clone().next(), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_language)]
fn gone_language(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BiosLanguage(r))) => r.installable_languages.clone().next(), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_elements)]
fn gone_elements(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => r.contained_elements, _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_peers)]
fn gone_peers(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::SystemSlots(r))) => r.peer_devices, _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_items)]
fn gone_items(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::GroupAssociations(r))) => Some(r.items), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_events)]
fn gone_events(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::SystemEventLog(r))) => r.supported_event_log_type_descriptors, _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_date)]
fn gone_date(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortableBattery(r))) => Some((r.manufacture_date, r.serial_number, r.device_chemistry)), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_bios_vendor)]
fn gone_bios_vendor(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Bios(r))) => Some(r.vendor), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_bios_bios_version)]
fn gone_bios_bios_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Bios(r))) => Some(r.bios_version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_bios_bios_release_date)]
fn gone_bios_bios_release_date(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Bios(r))) => Some(r.bios_release_date), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_manufacturer)]
fn gone_system_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_product)]
fn gone_system_product(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.product), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_version)]
fn gone_system_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_serial)]
fn gone_system_serial(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.serial), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_sku)]
fn gone_system_sku(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.sku), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_system_family)]
fn gone_system_family(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::System(r))) => Some(r.family), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_manufacturer)]
fn gone_baseboard_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_product)]
fn gone_baseboard_product(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.product), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_version)]
fn gone_baseboard_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_serial)]
fn gone_baseboard_serial(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.serial), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_asset)]
fn gone_baseboard_asset(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.asset), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_baseboard_location_in_chassis)]
fn gone_baseboard_location_in_chassis(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::BaseBoard(r))) => Some(r.location_in_chassis), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_enclosure_manufacturer)]
fn gone_enclosure_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => Some(r.manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_enclosure_version)]
fn gone_enclosure_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => Some(r.version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_enclosure_serial_number)]
fn gone_enclosure_serial_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => Some(r.serial_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_enclosure_asset_tag_number)]
fn gone_enclosure_asset_tag_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => Some(r.asset_tag_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_enclosure_sku_number)]
fn gone_enclosure_sku_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Enclosure(r))) => Some(r.sku_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_socket_designation)]
fn gone_processor_socket_designation(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.socket_designation), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_processor_manufacturer)]
fn gone_processor_processor_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.processor_manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_processor_version)]
fn gone_processor_processor_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.processor_version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_serial_number)]
fn gone_processor_serial_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.serial_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_asset_tag)]
fn gone_processor_asset_tag(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.asset_tag), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_processor_part_number)]
fn gone_processor_part_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Processor(r))) => Some(r.part_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_cache_socket_designation)]
fn gone_cache_socket_designation(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::Cache(r))) => Some(r.socket_designation), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portconnector_internal_reference_designator)]
fn gone_portconnector_internal_reference_designator(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortConnector(r))) => Some(r.internal_reference_designator), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portconnector_external_reference_designator)]
fn gone_portconnector_external_reference_designator(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortConnector(r))) => Some(r.external_reference_designator), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_systemslots_slot_designation)]
fn gone_systemslots_slot_designation(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::SystemSlots(r))) => Some(r.slot_designation), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_groupassociations_group_name)]
fn gone_groupassociations_group_name(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::GroupAssociations(r))) => Some(r.group_name), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_device_locator)]
fn gone_memorydevice_device_locator(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.device_locator), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_bank_locator)]
fn gone_memorydevice_bank_locator(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.bank_locator), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_manufacturer)]
fn gone_memorydevice_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_serial)]
fn gone_memorydevice_serial(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.serial), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_asset_tag)]
fn gone_memorydevice_asset_tag(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.asset_tag), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_part_number)]
fn gone_memorydevice_part_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.part_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_memorydevice_firmware_version)]
fn gone_memorydevice_firmware_version(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::MemoryDevice(r))) => Some(r.firmware_version), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portablebattery_location)]
fn gone_portablebattery_location(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortableBattery(r))) => Some(r.location), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portablebattery_manufacturer)]
fn gone_portablebattery_manufacturer(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortableBattery(r))) => Some(r.manufacturer), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portablebattery_device_name)]
fn gone_portablebattery_device_name(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortableBattery(r))) => Some(r.device_name), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(gone_portablebattery_sbds_version_number)]
fn gone_portablebattery_sbds_version_number(ep: EntryPoint) {
    let r;
    let b = table();
    r = match ep.structures(&b).next() { Some(Ok(Structure::PortableBattery(r))) => Some(r.sbds_version_number), _ => None };
    #[cfg(bad)]
    drop(b);
    keep(r);
}
#[cfg(changed_walk)]
fn changed_walk(ep: EntryPoint) {
    let mut b = table();
    let r = ep.structures(&b);
    #[cfg(bad)]
    b.push(0);
    keep(r);
}
#[cfg(changed_item)]
fn changed_item(ep: EntryPoint) {
    let mut b = table();
    let r = ep.structures(&b).next();
    #[cfg(bad)]
    b.push(0);
    keep(r);
}
#[cfg(changed_raw_string)]
fn changed_raw_string(ep: EntryPoint) {
    let mut b = table();
    let r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => r.find_string(1).ok(), _ => None };
    #[cfg(bad)]
    b.push(0);
    keep(r);
}
#[cfg(changed_raw_data)]
fn changed_raw_data(ep: EntryPoint) {
    let mut b = table();
    let r = match ep.structures(&b).next() { Some(Ok(Structure::Other(r))) => Some(r.data), _ => None };
    #[cfg(bad)]
    b.push(0);
    keep(r);
}
