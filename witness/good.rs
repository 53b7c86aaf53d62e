//! Type-level witnesses: each function compiles only if the types say what the property says.
//! (Nothing here is run.)
#![allow(dead_code, unused)]
use dmidecode::*;

// What is handed out borrows from the buffer alone: it outlives the iterator, the raw structure and the entry
// point it came from.
fn item<'a>(ep: EntryPoint, b: &'a [u8]) -> Option<Result<Structure<'a>, MalformedStructureError>> { ep.structures(b).next() }
fn last<'a>(b: &'a [u8]) -> Option<Structure<'a>> {
    let ep = EntryPoint::search(&b.to_vec()).ok()?;
    let mut kept = None;
    for s in ep.structures(b) { kept = s.ok(); }
    drop(ep);
    kept
}
fn walk<'a>(ep: &EntryPoint, b: &'a [u8]) -> Structures<'a> { ep.structures(b) }
fn raw_string<'a>(r: RawStructure<'a>) -> Option<&'a str> { r.find_string(1).ok() }
fn raw_get_string<'a>(r: RawStructure<'a>) -> Option<&'a str> { r.get_string(4).ok() }
fn raw_slice<'a>(r: RawStructure<'a>) -> Option<&'a [u8]> { r.get_slice(4, 2) }
fn raw_data<'a>(r: RawStructure<'a>) -> &'a [u8] { r.data }
fn raw_value(r: RawStructure<'_>) -> Option<u32> { r.get::<u32>(4).ok() }
fn strings<'a>(mut s: StructureStrings<'a>) -> Option<&'a str> { s.next() }
fn strings_of<'a>(s: &OemStrings<'a>) -> StructureStrings<'a> { s.strings }
fn options_of<'a>(s: &SystemConfigurationOptions<'a>) -> StructureStrings<'a> { s.strings }
fn language<'a>(s: &BiosLanguage<'a>) -> Option<&'a str> { s.installable_languages.clone().next() }
fn elements<'a>(s: Enclosure<'a>) -> Option<enclosure::ContainedElements<'a>> { s.contained_elements }
fn element(s: Enclosure<'_>) -> Option<enclosure::ContainedElement> { s.contained_elements?.next() }
fn peers<'a>(s: SystemSlots<'a>) -> Option<system_slots::PeerDevices<'a>> { s.peer_devices }
fn peer(s: SystemSlots<'_>) -> Option<system_slots::Device> { s.peer_devices?.next() }
fn items<'a>(s: GroupAssociations<'a>) -> group_associations::GroupItems<'a> { s.items }
fn group_item(s: GroupAssociations<'_>) -> Option<group_associations::GroupItem> { s.items.clone().next() }
fn events<'a>(s: SystemEventLog<'a>) -> Option<system_event_log::SupportedEventLogTypeDescriptors<'a>> { s.supported_event_log_type_descriptors }
fn event(s: SystemEventLog<'_>) -> Option<system_event_log::EventLogTypeDescriptor> { s.supported_event_log_type_descriptors?.next() }
fn battery<'a>(s: PortableBattery<'a>) -> (portable_battery::ManufactureDate<'a>, portable_battery::SerialNumber<'a>, portable_battery::DeviceChemistry<'a>) {
    (s.manufacture_date, s.serial_number, s.device_chemistry)
}
fn bios_vendor<'a>(s: &Bios<'a>) -> &'a str { s.vendor }
fn bios_bios_version<'a>(s: &Bios<'a>) -> &'a str { s.bios_version }
fn bios_bios_release_date<'a>(s: &Bios<'a>) -> &'a str { s.bios_release_date }
fn system_manufacturer<'a>(s: &System<'a>) -> &'a str { s.manufacturer }
fn system_product<'a>(s: &System<'a>) -> &'a str { s.product }
fn system_version<'a>(s: &System<'a>) -> &'a str { s.version }
fn system_serial<'a>(s: &System<'a>) -> &'a str { s.serial }
fn system_sku<'a>(s: &System<'a>) -> Option<&'a str> { s.sku }
fn system_family<'a>(s: &System<'a>) -> Option<&'a str> { s.family }
fn baseboard_manufacturer<'a>(s: &BaseBoard<'a>) -> &'a str { s.manufacturer }
fn baseboard_product<'a>(s: &BaseBoard<'a>) -> &'a str { s.product }
fn baseboard_version<'a>(s: &BaseBoard<'a>) -> &'a str { s.version }
fn baseboard_serial<'a>(s: &BaseBoard<'a>) -> &'a str { s.serial }
fn baseboard_asset<'a>(s: &BaseBoard<'a>) -> Option<&'a str> { s.asset }
fn baseboard_location_in_chassis<'a>(s: &BaseBoard<'a>) -> Option<&'a str> { s.location_in_chassis }
fn enclosure_manufacturer<'a>(s: &Enclosure<'a>) -> &'a str { s.manufacturer }
fn enclosure_version<'a>(s: &Enclosure<'a>) -> &'a str { s.version }
fn enclosure_serial_number<'a>(s: &Enclosure<'a>) -> &'a str { s.serial_number }
fn enclosure_asset_tag_number<'a>(s: &Enclosure<'a>) -> &'a str { s.asset_tag_number }
fn enclosure_sku_number<'a>(s: &Enclosure<'a>) -> Option<&'a str> { s.sku_number }
fn processor_socket_designation<'a>(s: &Processor<'a>) -> &'a str { s.socket_designation }
fn processor_processor_manufacturer<'a>(s: &Processor<'a>) -> &'a str { s.processor_manufacturer }
fn processor_processor_version<'a>(s: &Processor<'a>) -> &'a str { s.processor_version }
fn processor_serial_number<'a>(s: &Processor<'a>) -> Option<&'a str> { s.serial_number }
fn processor_asset_tag<'a>(s: &Processor<'a>) -> Option<&'a str> { s.asset_tag }
fn processor_part_number<'a>(s: &Processor<'a>) -> Option<&'a str> { s.part_number }
fn cache_socket_designation<'a>(s: &Cache<'a>) -> &'a str { s.socket_designation }
fn portconnector_internal_reference_designator<'a>(s: &PortConnector<'a>) -> &'a str { s.internal_reference_designator }
fn portconnector_external_reference_designator<'a>(s: &PortConnector<'a>) -> &'a str { s.external_reference_designator }
fn systemslots_slot_designation<'a>(s: &SystemSlots<'a>) -> &'a str { s.slot_designation }
fn groupassociations_group_name<'a>(s: &GroupAssociations<'a>) -> &'a str { s.group_name }
fn memorydevice_device_locator<'a>(s: &MemoryDevice<'a>) -> &'a str { s.device_locator }
fn memorydevice_bank_locator<'a>(s: &MemoryDevice<'a>) -> &'a str { s.bank_locator }
fn memorydevice_manufacturer<'a>(s: &MemoryDevice<'a>) -> &'a str { s.manufacturer }
fn memorydevice_serial<'a>(s: &MemoryDevice<'a>) -> &'a str { s.serial }
fn memorydevice_asset_tag<'a>(s: &MemoryDevice<'a>) -> &'a str { s.asset_tag }
fn memorydevice_part_number<'a>(s: &MemoryDevice<'a>) -> &'a str { s.part_number }
fn memorydevice_firmware_version<'a>(s: &MemoryDevice<'a>) -> Option<&'a str> { s.firmware_version }
fn portablebattery_location<'a>(s: &PortableBattery<'a>) -> &'a str { s.location }
fn portablebattery_manufacturer<'a>(s: &PortableBattery<'a>) -> &'a str { s.manufacturer }
fn portablebattery_device_name<'a>(s: &PortableBattery<'a>) -> &'a str { s.device_name }
fn portablebattery_sbds_version_number<'a>(s: &PortableBattery<'a>) -> &'a str { s.sbds_version_number }

// A longer borrow may be used where a shorter one is wanted.
fn shorter<'a, 'b: 'a>(s: Structure<'b>) -> Structure<'a> { s }
fn shorter_walk<'a, 'b: 'a>(s: Structures<'b>) -> Structures<'a> { s }
fn shorter_raw<'a, 'b: 'a>(s: RawStructure<'b>) -> RawStructure<'a> { s }

// Values without text own all they hold.
fn owned<T: 'static>() {}
fn owned_values() {
    owned::<EntryPoint>(); owned::<EntryPointV2>(); owned::<EntryPointV3>(); owned::<SmbiosVersion>(); owned::<InfoType>();
    owned::<InvalidEntryPointError>(); owned::<MalformedStructureError>();
    owned::<PhysicalMemoryArray>(); owned::<MemoryError32>(); owned::<MemoryArrayMappedAddress>(); owned::<MemoryDeviceMappedAddress>(); owned::<BuiltInPointingDevice>();
    owned::<enclosure::ContainedElement>(); owned::<system_slots::Device>(); owned::<group_associations::GroupItem>(); owned::<system_event_log::EventLogTypeDescriptor>();
}
// Meanings of bits are fixed texts.
fn flag(c: bios::Characteristics) -> Option<bitfield::Flag<'static>> { use bitfield::BitField; c.iter().next() }
fn significant(c: bios::Characteristics) -> Option<bitfield::Flag<'static>> { use bitfield::BitField; c.significants().next() }
fn reserved(c: bios::Characteristics) -> Option<bitfield::ReservedRange<'static>> { use bitfield::BitField; c.reserved().next() }

// Everything can be moved to and shared with other threads.
fn shared<T: Send + Sync + Unpin + core::panic::UnwindSafe + core::panic::RefUnwindSafe>() {}
fn shared_values() {
    shared::<EntryPoint>(); shared::<SmbiosVersion>(); shared::<InvalidEntryPointError>(); shared::<MalformedStructureError>();
    shared::<Structures<'static>>(); shared::<Structure<'static>>(); shared::<RawStructure<'static>>(); shared::<StructureStrings<'static>>();
    shared::<bitfield::Iter<'static, u64>>(); shared::<bitfield::Significants<'static, u64>>(); shared::<bitfield::Reserved<'static, u64>>(); shared::<bitfield::Flag<'static>>();
    shared::<enclosure::ContainedElements<'static>>(); shared::<system_slots::PeerDevices<'static>>(); shared::<group_associations::GroupItems<'static>>();
    shared::<system_event_log::SupportedEventLogTypeDescriptors<'static>>(); shared::<bios_language::InstallableLanguages<'static>>();
}

// A copy of an iterator goes on independently of the original.
fn again<T: Clone + Iterator>() {}
fn again_values() {
    again::<Structures<'static>>(); again::<StructureStrings<'static>>(); again::<enclosure::ContainedElements<'static>>(); again::<system_slots::PeerDevices<'static>>();
    again::<group_associations::GroupItems<'static>>(); again::<system_event_log::SupportedEventLogTypeDescriptors<'static>>(); again::<bios_language::InstallableLanguages<'static>>();
    again::<bitfield::Iter<'static, u64>>(); again::<bitfield::Significants<'static, u64>>(); again::<bitfield::Reserved<'static, u64>>();
}
fn plain<T: Copy>() {}
fn plain_values() { plain::<EntryPoint>(); plain::<SmbiosVersion>(); plain::<InfoType>(); plain::<StructureStrings<'static>>(); }
