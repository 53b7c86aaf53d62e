//! Conversions there and back.
use crate::{mk, sp};
use dmidecode::system_event_log::*;
use dmidecode::system_slots::*;
pub fn function(x: u8) { mk::check("r.function", u8::from(DeviceAndFunctionNumber::from(x)) == x); }
pub fn device(b: [u8; 5]) {
    let d = Device::from(&b[..]);
    sp::peer("device", d, &b, 0);
    let back = <[u8; 5]>::from(&d);
    mk::check("r.device", back == b);
}
/// Records shorter than five bytes read as if the missing bytes were zero; longer ones by their first five.
pub fn device_any(b: &[u8]) {
    let d = Device::from(b);
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let back = <[u8; 5]>::from(&d);
    mk::check("r.device.any", back == [at(0), at(1), at(2), at(3), at(4)]);
}
pub fn log_type(x: u8) { mk::check("r.log_type", u8::from(EventLogType::from(x)) == x); }
pub fn format_type(x: u8) { mk::check("r.format_type", u8::from(VariableDataFormatType::from(x)) == x); }
pub fn descriptor(b: [u8; 2]) {
    let d = EventLogTypeDescriptor::from(b);
    mk::check_eq("r.descriptor.type", &d.log_type, &crate::rt::log_record_format::EventLogType_u8(b[0]));
    mk::check_eq("r.descriptor.format", &d.variable_data_format_type, &crate::rt::log_record_format::VariableDataFormatType_u8(b[1]));
    let back = <[u8; 2]>::from(d);
    mk::check("r.descriptor", back == b);
}
