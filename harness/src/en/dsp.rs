//! The text of every coded value (generated by tools/genentries.py).
#![allow(non_snake_case)]
use crate::{mk, rt};
pub fn bios_BiosRevision(v: dmidecode::bios::BiosRevision) {
    mk::check("d.bios.BiosRevision", mk::text_eq(mk::text(&v), mk::text(&rt::bios::DBiosRevision(&v))));
    mk::check("d.alt.bios.BiosRevision", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::bios::DBiosRevision(&v)))));
}
pub fn bios_FirmwareRevision(v: dmidecode::bios::FirmwareRevision) {
    mk::check("d.bios.FirmwareRevision", mk::text_eq(mk::text(&v), mk::text(&rt::bios::DFirmwareRevision(&v))));
    mk::check("d.alt.bios.FirmwareRevision", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::bios::DFirmwareRevision(&v)))));
}
pub fn baseboard_BoardType(v: dmidecode::baseboard::BoardType) {
    mk::check("d.baseboard.BoardType", mk::text_eq(mk::text(&v), mk::text(&rt::baseboard::DBoardType(&v))));
    mk::check("d.alt.baseboard.BoardType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::baseboard::DBoardType(&v)))));
}
pub fn enclosure_EnclosureType(v: dmidecode::enclosure::EnclosureType) {
    mk::check("d.enclosure.EnclosureType", mk::text_eq(mk::text(&v), mk::text(&rt::enclosure::DEnclosureType(&v))));
    mk::check("d.alt.enclosure.EnclosureType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::enclosure::DEnclosureType(&v)))));
}
pub fn enclosure_State(v: dmidecode::enclosure::State) {
    mk::check("d.enclosure.State", mk::text_eq(mk::text(&v), mk::text(&rt::enclosure::DState(&v))));
    mk::check("d.alt.enclosure.State", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::enclosure::DState(&v)))));
}
pub fn enclosure_SecurityStatus(v: dmidecode::enclosure::SecurityStatus) {
    mk::check("d.enclosure.SecurityStatus", mk::text_eq(mk::text(&v), mk::text(&rt::enclosure::DSecurityStatus(&v))));
    mk::check("d.alt.enclosure.SecurityStatus", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::enclosure::DSecurityStatus(&v)))));
}
pub fn enclosure_ContainedElementType(v: dmidecode::enclosure::ContainedElementType) {
    mk::check("d.enclosure.ContainedElementType", mk::text_eq(mk::text(&v), mk::text(&rt::enclosure::DContainedElementType(&v))));
    mk::check("d.alt.enclosure.ContainedElementType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::enclosure::DContainedElementType(&v)))));
}
pub fn processor_ProcessorFamily(v: dmidecode::processor::ProcessorFamily) {
    mk::check("d.processor.ProcessorFamily", mk::text_eq(mk::text(&v), mk::text(&rt::processor::DProcessorFamily(&v))));
    mk::check("d.alt.processor.ProcessorFamily", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::processor::DProcessorFamily(&v)))));
}
pub fn processor_Voltage(v: dmidecode::processor::Voltage) {
    mk::check("d.processor.Voltage", mk::text_eq(mk::text(&v), mk::text(&rt::processor::DVoltage(&v))));
    mk::check("d.alt.processor.Voltage", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::processor::DVoltage(&v)))));
}
pub fn processor_ProcessorUpgrade(v: dmidecode::processor::ProcessorUpgrade) {
    mk::check("d.processor.ProcessorUpgrade", mk::text_eq(mk::text(&v), mk::text(&rt::processor::DProcessorUpgrade(&v))));
    mk::check("d.alt.processor.ProcessorUpgrade", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::processor::DProcessorUpgrade(&v)))));
}
pub fn cache_CacheLevel(v: dmidecode::cache::CacheLevel) {
    mk::check("d.cache.CacheLevel", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DCacheLevel(&v))));
    mk::check("d.alt.cache.CacheLevel", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DCacheLevel(&v)))));
}
pub fn cache_CacheLocation(v: dmidecode::cache::CacheLocation) {
    mk::check("d.cache.CacheLocation", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DCacheLocation(&v))));
    mk::check("d.alt.cache.CacheLocation", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DCacheLocation(&v)))));
}
pub fn cache_CacheOperationalMode(v: dmidecode::cache::CacheOperationalMode) {
    mk::check("d.cache.CacheOperationalMode", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DCacheOperationalMode(&v))));
    mk::check("d.alt.cache.CacheOperationalMode", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DCacheOperationalMode(&v)))));
}
pub fn cache_CacheErrorCorrectionType(v: dmidecode::cache::CacheErrorCorrectionType) {
    mk::check("d.cache.CacheErrorCorrectionType", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DCacheErrorCorrectionType(&v))));
    mk::check("d.alt.cache.CacheErrorCorrectionType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DCacheErrorCorrectionType(&v)))));
}
pub fn cache_SystemCacheType(v: dmidecode::cache::SystemCacheType) {
    mk::check("d.cache.SystemCacheType", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DSystemCacheType(&v))));
    mk::check("d.alt.cache.SystemCacheType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DSystemCacheType(&v)))));
}
pub fn cache_CacheAssociativity(v: dmidecode::cache::CacheAssociativity) {
    mk::check("d.cache.CacheAssociativity", mk::text_eq(mk::text(&v), mk::text(&rt::cache::DCacheAssociativity(&v))));
    mk::check("d.alt.cache.CacheAssociativity", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::cache::DCacheAssociativity(&v)))));
}
pub fn port_connector_ConnectorType(v: dmidecode::port_connector::ConnectorType) {
    mk::check("d.port_connector.ConnectorType", mk::text_eq(mk::text(&v), mk::text(&rt::port_connector::DConnectorType(&v))));
    mk::check("d.alt.port_connector.ConnectorType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::port_connector::DConnectorType(&v)))));
}
pub fn port_connector_PortType(v: dmidecode::port_connector::PortType) {
    mk::check("d.port_connector.PortType", mk::text_eq(mk::text(&v), mk::text(&rt::port_connector::DPortType(&v))));
    mk::check("d.alt.port_connector.PortType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::port_connector::DPortType(&v)))));
}
pub fn system_slots_SlotType(v: dmidecode::system_slots::SlotType) {
    mk::check("d.system_slots.SlotType", mk::text_eq(mk::text(&v), mk::text(&rt::system_slots::DSlotType(&v))));
    mk::check("d.alt.system_slots.SlotType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_slots::DSlotType(&v)))));
}
pub fn system_slots_SlotWidth(v: dmidecode::system_slots::SlotWidth) {
    mk::check("d.system_slots.SlotWidth", mk::text_eq(mk::text(&v), mk::text(&rt::system_slots::DSlotWidth(&v))));
    mk::check("d.alt.system_slots.SlotWidth", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_slots::DSlotWidth(&v)))));
}
pub fn system_slots_CurrentUsage(v: dmidecode::system_slots::CurrentUsage) {
    mk::check("d.system_slots.CurrentUsage", mk::text_eq(mk::text(&v), mk::text(&rt::system_slots::DCurrentUsage(&v))));
    mk::check("d.alt.system_slots.CurrentUsage", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_slots::DCurrentUsage(&v)))));
}
pub fn system_slots_SlotLength(v: dmidecode::system_slots::SlotLength) {
    mk::check("d.system_slots.SlotLength", mk::text_eq(mk::text(&v), mk::text(&rt::system_slots::DSlotLength(&v))));
    mk::check("d.alt.system_slots.SlotLength", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_slots::DSlotLength(&v)))));
}
pub fn system_event_log_AccessMethod(v: dmidecode::system_event_log::AccessMethod) {
    mk::check("d.system_event_log.AccessMethod", mk::text_eq(mk::text(&v), mk::text(&rt::system_event_log::DAccessMethod(&v))));
    mk::check("d.alt.system_event_log.AccessMethod", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_event_log::DAccessMethod(&v)))));
}
pub fn system_event_log_LogHeaderFormat(v: dmidecode::system_event_log::LogHeaderFormat) {
    mk::check("d.system_event_log.LogHeaderFormat", mk::text_eq(mk::text(&v), mk::text(&rt::system_event_log::DLogHeaderFormat(&v))));
    mk::check("d.alt.system_event_log.LogHeaderFormat", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::system_event_log::DLogHeaderFormat(&v)))));
}
pub fn physical_memory_array_MemoryArrayLocation(v: dmidecode::physical_memory_array::MemoryArrayLocation) {
    mk::check("d.physical_memory_array.MemoryArrayLocation", mk::text_eq(mk::text(&v), mk::text(&rt::physical_memory_array::DMemoryArrayLocation(&v))));
    mk::check("d.alt.physical_memory_array.MemoryArrayLocation", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::physical_memory_array::DMemoryArrayLocation(&v)))));
}
pub fn physical_memory_array_MemoryArrayUse(v: dmidecode::physical_memory_array::MemoryArrayUse) {
    mk::check("d.physical_memory_array.MemoryArrayUse", mk::text_eq(mk::text(&v), mk::text(&rt::physical_memory_array::DMemoryArrayUse(&v))));
    mk::check("d.alt.physical_memory_array.MemoryArrayUse", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::physical_memory_array::DMemoryArrayUse(&v)))));
}
pub fn physical_memory_array_MemoryArrayErrorCorrectionTypes(v: dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes) {
    mk::check("d.physical_memory_array.MemoryArrayErrorCorrectionTypes", mk::text_eq(mk::text(&v), mk::text(&rt::physical_memory_array::DMemoryArrayErrorCorrectionTypes(&v))));
    mk::check("d.alt.physical_memory_array.MemoryArrayErrorCorrectionTypes", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::physical_memory_array::DMemoryArrayErrorCorrectionTypes(&v)))));
}
pub fn memory_error_32_ErrorType(v: dmidecode::memory_error_32::ErrorType) {
    mk::check("d.memory_error_32.ErrorType", mk::text_eq(mk::text(&v), mk::text(&rt::memory_error_32::DErrorType(&v))));
    mk::check("d.alt.memory_error_32.ErrorType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::memory_error_32::DErrorType(&v)))));
}
pub fn memory_error_32_ErrorGranularity(v: dmidecode::memory_error_32::ErrorGranularity) {
    mk::check("d.memory_error_32.ErrorGranularity", mk::text_eq(mk::text(&v), mk::text(&rt::memory_error_32::DErrorGranularity(&v))));
    mk::check("d.alt.memory_error_32.ErrorGranularity", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::memory_error_32::DErrorGranularity(&v)))));
}
pub fn memory_error_32_ErrorOperation(v: dmidecode::memory_error_32::ErrorOperation) {
    mk::check("d.memory_error_32.ErrorOperation", mk::text_eq(mk::text(&v), mk::text(&rt::memory_error_32::DErrorOperation(&v))));
    mk::check("d.alt.memory_error_32.ErrorOperation", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::memory_error_32::DErrorOperation(&v)))));
}
pub fn built_in_pointing_device_Type(v: dmidecode::built_in_pointing_device::Type) {
    mk::check("d.built_in_pointing_device.Type", mk::text_eq(mk::text(&v), mk::text(&rt::built_in_pointing_device::DType(&v))));
    mk::check("d.alt.built_in_pointing_device.Type", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::built_in_pointing_device::DType(&v)))));
}
pub fn built_in_pointing_device_Interface(v: dmidecode::built_in_pointing_device::Interface) {
    mk::check("d.built_in_pointing_device.Interface", mk::text_eq(mk::text(&v), mk::text(&rt::built_in_pointing_device::DInterface(&v))));
    mk::check("d.alt.built_in_pointing_device.Interface", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::built_in_pointing_device::DInterface(&v)))));
}
pub fn portable_battery_ManufactureDate(v: dmidecode::portable_battery::ManufactureDate<'static>) {
    mk::check("d.portable_battery.ManufactureDate", mk::text_eq(mk::text(&v), mk::text(&rt::portable_battery::DManufactureDate(&v))));
    mk::check("d.alt.portable_battery.ManufactureDate", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::portable_battery::DManufactureDate(&v)))));
}
pub fn portable_battery_SerialNumber(v: dmidecode::portable_battery::SerialNumber<'static>) {
    mk::check("d.portable_battery.SerialNumber", mk::text_eq(mk::text(&v), mk::text(&rt::portable_battery::DSerialNumber(&v))));
    mk::check("d.alt.portable_battery.SerialNumber", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::portable_battery::DSerialNumber(&v)))));
}
pub fn portable_battery_DeviceChemistry(v: dmidecode::portable_battery::DeviceChemistry<'static>) {
    mk::check("d.portable_battery.DeviceChemistry", mk::text_eq(mk::text(&v), mk::text(&rt::portable_battery::DDeviceChemistry(&v))));
    mk::check("d.alt.portable_battery.DeviceChemistry", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::portable_battery::DDeviceChemistry(&v)))));
}
pub fn log_record_format_EventLogType(v: dmidecode::system_event_log::log_record_format::EventLogType) {
    mk::check("d.log_record_format.EventLogType", mk::text_eq(mk::text(&v), mk::text(&rt::log_record_format::DEventLogType(&v))));
    mk::check("d.alt.log_record_format.EventLogType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::log_record_format::DEventLogType(&v)))));
}
pub fn log_record_format_VariableDataFormatType(v: dmidecode::system_event_log::log_record_format::VariableDataFormatType) {
    mk::check("d.log_record_format.VariableDataFormatType", mk::text_eq(mk::text(&v), mk::text(&rt::log_record_format::DVariableDataFormatType(&v))));
    mk::check("d.alt.log_record_format.VariableDataFormatType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::log_record_format::DVariableDataFormatType(&v)))));
}
pub fn log_record_format_SystemManagementType(v: dmidecode::system_event_log::log_record_format::SystemManagementType) {
    mk::check("d.log_record_format.SystemManagementType", mk::text_eq(mk::text(&v), mk::text(&rt::log_record_format::DSystemManagementType(&v))));
    mk::check("d.alt.log_record_format.SystemManagementType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::log_record_format::DSystemManagementType(&v)))));
}
pub fn root_InvalidEntryPointError(v: dmidecode::InvalidEntryPointError) {
    mk::check("d.root.InvalidEntryPointError", mk::text_eq(mk::text(&v), mk::text(&rt::root::DInvalidEntryPointError(&v))));
    mk::check("d.alt.root.InvalidEntryPointError", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::root::DInvalidEntryPointError(&v)))));
}
pub fn root_MalformedStructureError(v: dmidecode::MalformedStructureError) {
    mk::check("d.root.MalformedStructureError", mk::text_eq(mk::text(&v), mk::text(&rt::root::DMalformedStructureError(&v))));
    mk::check("d.alt.root.MalformedStructureError", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::root::DMalformedStructureError(&v)))));
}
pub fn root_InfoType(v: dmidecode::InfoType) {
    mk::check("d.root.InfoType", mk::text_eq(mk::text(&v), mk::text(&rt::root::DInfoType(&v))));
    mk::check("d.alt.root.InfoType", mk::text_eq(mk::textf(format_args!("{:#}", v)), mk::textf(format_args!("{:#}", rt::root::DInfoType(&v)))));
}
