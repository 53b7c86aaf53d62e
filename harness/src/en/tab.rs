//! Every code byte and its meaning (generated by tools/genentries.py).
#![allow(non_snake_case)]
use crate::{mk, rt};
pub fn system_WakeupType(x: u8) {
    mk::check_eq("t.system.WakeupType", &dmidecode::system::WakeupType::from(x), &rt::system::WakeupType_u8(x));
}
pub fn baseboard_BoardType(x: u8) {
    mk::check_eq("t.baseboard.BoardType", &dmidecode::baseboard::BoardType::from(x), &rt::baseboard::BoardType_u8(x));
}
pub fn enclosure_EnclosureType(x: u8) {
    mk::check_eq("t.enclosure.EnclosureType", &dmidecode::enclosure::EnclosureType::from(x), &rt::enclosure::EnclosureType_u8(x));
}
pub fn enclosure_State(x: u8) {
    mk::check_eq("t.enclosure.State", &dmidecode::enclosure::State::from(x), &rt::enclosure::State_u8(x));
}
pub fn enclosure_SecurityStatus(x: u8) {
    mk::check_eq("t.enclosure.SecurityStatus", &dmidecode::enclosure::SecurityStatus::from(x), &rt::enclosure::SecurityStatus_u8(x));
}
pub fn processor_ProcessorType(x: u8) {
    mk::check_eq("t.processor.ProcessorType", &dmidecode::processor::ProcessorType::from(x), &rt::processor::ProcessorType_u8(x));
}
pub fn processor_ProcessorFamily(x: u16) {
    mk::check_eq("t.processor.ProcessorFamily", &dmidecode::processor::ProcessorFamily::from(x), &rt::processor::ProcessorFamily_u16(x));
}
pub fn processor_ProcessorUpgrade(x: u8) {
    mk::check_eq("t.processor.ProcessorUpgrade", &dmidecode::processor::ProcessorUpgrade::from(x), &rt::processor::ProcessorUpgrade_u8(x));
}
pub fn cache_CacheLevel(x: u16) {
    mk::assume(x < 8);
    mk::check_eq("t.cache.CacheLevel", &dmidecode::cache::CacheLevel::from(x), &rt::cache::CacheLevel_u16(x));
}
pub fn cache_CacheLocation(x: u16) {
    mk::assume(x < 4);
    mk::check_eq("t.cache.CacheLocation", &dmidecode::cache::CacheLocation::from(x), &rt::cache::CacheLocation_u16(x));
}
pub fn cache_CacheOperationalMode(x: u16) {
    mk::assume(x < 4);
    mk::check_eq("t.cache.CacheOperationalMode", &dmidecode::cache::CacheOperationalMode::from(x), &rt::cache::CacheOperationalMode_u16(x));
}
pub fn cache_CacheErrorCorrectionType(x: u8) {
    mk::check_eq("t.cache.CacheErrorCorrectionType", &dmidecode::cache::CacheErrorCorrectionType::from(x), &rt::cache::CacheErrorCorrectionType_u8(x));
}
pub fn cache_SystemCacheType(x: u8) {
    mk::check_eq("t.cache.SystemCacheType", &dmidecode::cache::SystemCacheType::from(x), &rt::cache::SystemCacheType_u8(x));
}
pub fn cache_CacheAssociativity(x: u8) {
    mk::check_eq("t.cache.CacheAssociativity", &dmidecode::cache::CacheAssociativity::from(x), &rt::cache::CacheAssociativity_u8(x));
}
pub fn port_connector_ConnectorType(x: u8) {
    mk::check_eq("t.port_connector.ConnectorType", &dmidecode::port_connector::ConnectorType::from(x), &rt::port_connector::ConnectorType_u8(x));
}
pub fn port_connector_PortType(x: u8) {
    mk::check_eq("t.port_connector.PortType", &dmidecode::port_connector::PortType::from(x), &rt::port_connector::PortType_u8(x));
}
pub fn system_slots_SlotType(x: u8) {
    mk::check_eq("t.system_slots.SlotType", &dmidecode::system_slots::SlotType::from(x), &rt::system_slots::SlotType_u8(x));
}
pub fn system_slots_SlotWidth(x: u8) {
    mk::check_eq("t.system_slots.SlotWidth", &dmidecode::system_slots::SlotWidth::from(x), &rt::system_slots::SlotWidth_u8(x));
}
pub fn system_slots_CurrentUsage(x: u8) {
    mk::check_eq("t.system_slots.CurrentUsage", &dmidecode::system_slots::CurrentUsage::from(x), &rt::system_slots::CurrentUsage_u8(x));
}
pub fn system_slots_SlotLength(x: u8) {
    mk::check_eq("t.system_slots.SlotLength", &dmidecode::system_slots::SlotLength::from(x), &rt::system_slots::SlotLength_u8(x));
}
pub fn system_event_log_LogHeaderFormat(x: u8) {
    mk::check_eq("t.system_event_log.LogHeaderFormat", &dmidecode::system_event_log::LogHeaderFormat::from(x), &rt::system_event_log::LogHeaderFormat_u8(x));
}
pub fn physical_memory_array_MemoryArrayLocation(x: u8) {
    mk::check_eq("t.physical_memory_array.MemoryArrayLocation", &dmidecode::physical_memory_array::MemoryArrayLocation::from(x), &rt::physical_memory_array::MemoryArrayLocation_u8(x));
}
pub fn physical_memory_array_MemoryArrayUse(x: u8) {
    mk::check_eq("t.physical_memory_array.MemoryArrayUse", &dmidecode::physical_memory_array::MemoryArrayUse::from(x), &rt::physical_memory_array::MemoryArrayUse_u8(x));
}
pub fn physical_memory_array_MemoryArrayErrorCorrectionTypes(x: u8) {
    mk::check_eq("t.physical_memory_array.MemoryArrayErrorCorrectionTypes", &dmidecode::physical_memory_array::MemoryArrayErrorCorrectionTypes::from(x), &rt::physical_memory_array::MemoryArrayErrorCorrectionTypes_u8(x));
}
pub fn memory_device_ErrorGranularity(x: u8) {
    mk::check_eq("t.memory_device.ErrorGranularity", &dmidecode::memory_device::ErrorGranularity::from(x), &rt::memory_device::ErrorGranularity_u8(x));
}
pub fn memory_device_ErrorOperation(x: u8) {
    mk::check_eq("t.memory_device.ErrorOperation", &dmidecode::memory_device::ErrorOperation::from(x), &rt::memory_device::ErrorOperation_u8(x));
}
pub fn memory_device_ErrorType(x: u8) {
    mk::check_eq("t.memory_device.ErrorType", &dmidecode::memory_device::ErrorType::from(x), &rt::memory_device::ErrorType_u8(x));
}
pub fn memory_device_FormFactor(x: u8) {
    mk::check_eq("t.memory_device.FormFactor", &dmidecode::memory_device::FormFactor::from(x), &rt::memory_device::FormFactor_u8(x));
}
pub fn memory_device_MemoryTechnology(x: u8) {
    mk::check_eq("t.memory_device.MemoryTechnology", &dmidecode::memory_device::MemoryTechnology::from(x), &rt::memory_device::MemoryTechnology_u8(x));
}
pub fn memory_device_Type(x: u8) {
    mk::check_eq("t.memory_device.Type", &dmidecode::memory_device::Type::from(x), &rt::memory_device::Type_u8(x));
}
pub fn memory_error_32_ErrorType(x: u8) {
    mk::check_eq("t.memory_error_32.ErrorType", &dmidecode::memory_error_32::ErrorType::from(x), &rt::memory_error_32::ErrorType_u8(x));
}
pub fn memory_error_32_ErrorGranularity(x: u8) {
    mk::check_eq("t.memory_error_32.ErrorGranularity", &dmidecode::memory_error_32::ErrorGranularity::from(x), &rt::memory_error_32::ErrorGranularity_u8(x));
}
pub fn memory_error_32_ErrorOperation(x: u8) {
    mk::check_eq("t.memory_error_32.ErrorOperation", &dmidecode::memory_error_32::ErrorOperation::from(x), &rt::memory_error_32::ErrorOperation_u8(x));
}
pub fn built_in_pointing_device_Type(x: u8) {
    mk::check_eq("t.built_in_pointing_device.Type", &dmidecode::built_in_pointing_device::Type::from(x), &rt::built_in_pointing_device::Type_u8(x));
}
pub fn built_in_pointing_device_Interface(x: u8) {
    mk::check_eq("t.built_in_pointing_device.Interface", &dmidecode::built_in_pointing_device::Interface::from(x), &rt::built_in_pointing_device::Interface_u8(x));
}
pub fn log_record_format_EventLogType(x: u8) {
    mk::check_eq("t.log_record_format.EventLogType", &dmidecode::system_event_log::log_record_format::EventLogType::from(x), &rt::log_record_format::EventLogType_u8(x));
}
pub fn log_record_format_VariableDataFormatType(x: u8) {
    mk::check_eq("t.log_record_format.VariableDataFormatType", &dmidecode::system_event_log::log_record_format::VariableDataFormatType::from(x), &rt::log_record_format::VariableDataFormatType_u8(x));
}
pub fn log_record_format_SystemManagementType(x: u32) {
    mk::check_eq("t.log_record_format.SystemManagementType", &dmidecode::system_event_log::log_record_format::SystemManagementType::from(x), &rt::log_record_format::SystemManagementType_u32(x));
}
pub fn root_InfoType(x: u8) {
    mk::check_eq("t.root.InfoType", &dmidecode::InfoType::from(x), &rt::root::InfoType_u8(x));
}
