//! The named flags of every flag word and the bits they stand for
//! (a frozen transcription of the SMBIOS tables).
#![allow(non_snake_case)]
use crate::mk;
pub fn memory_device_Detail(x: u16) {
    use dmidecode::memory_device::Detail as F;
    mk::check("t.flags.memory_device.Detail.RESERVED", F::RESERVED.bits() == 0x0);
    mk::check("t.flags.memory_device.Detail.OTHER", F::OTHER.bits() == 0x2);
    mk::check("t.flags.memory_device.Detail.UNKNOWN", F::UNKNOWN.bits() == 0x4);
    mk::check("t.flags.memory_device.Detail.FAST_PAGED", F::FAST_PAGED.bits() == 0x8);
    mk::check("t.flags.memory_device.Detail.STATIC_COLUMN", F::STATIC_COLUMN.bits() == 0x10);
    mk::check("t.flags.memory_device.Detail.PSEUDO_STATIC", F::PSEUDO_STATIC.bits() == 0x20);
    mk::check("t.flags.memory_device.Detail.RAMBUS", F::RAMBUS.bits() == 0x40);
    mk::check("t.flags.memory_device.Detail.SYNCHRONOUS", F::SYNCHRONOUS.bits() == 0x80);
    mk::check("t.flags.memory_device.Detail.CMOS", F::CMOS.bits() == 0x100);
    mk::check("t.flags.memory_device.Detail.EDO", F::EDO.bits() == 0x200);
    mk::check("t.flags.memory_device.Detail.WINDOW_DRAM", F::WINDOW_DRAM.bits() == 0x400);
    mk::check("t.flags.memory_device.Detail.CACHE_DRAM", F::CACHE_DRAM.bits() == 0x800);
    mk::check("t.flags.memory_device.Detail.NON_VOLATILE", F::NON_VOLATILE.bits() == 0x1000);
    mk::check("t.flags.memory_device.Detail.REGISTERED", F::REGISTERED.bits() == 0x2000);
    mk::check("t.flags.memory_device.Detail.UNREGISTERED", F::UNREGISTERED.bits() == 0x4000);
    mk::check("t.flags.memory_device.Detail.LRDIMM", F::LRDIMM.bits() == 0x8000);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.memory_device.Detail.bits", f.bits() == x & 0xfffe);
    mk::check("t.flags.memory_device.Detail.RESERVED.contained", f.contains(F::RESERVED) == (x & 0x0 == 0x0));
    mk::check("t.flags.memory_device.Detail.OTHER.contained", f.contains(F::OTHER) == (x & 0x2 == 0x2));
    mk::check("t.flags.memory_device.Detail.UNKNOWN.contained", f.contains(F::UNKNOWN) == (x & 0x4 == 0x4));
    mk::check("t.flags.memory_device.Detail.FAST_PAGED.contained", f.contains(F::FAST_PAGED) == (x & 0x8 == 0x8));
    mk::check("t.flags.memory_device.Detail.STATIC_COLUMN.contained", f.contains(F::STATIC_COLUMN) == (x & 0x10 == 0x10));
    mk::check("t.flags.memory_device.Detail.PSEUDO_STATIC.contained", f.contains(F::PSEUDO_STATIC) == (x & 0x20 == 0x20));
    mk::check("t.flags.memory_device.Detail.RAMBUS.contained", f.contains(F::RAMBUS) == (x & 0x40 == 0x40));
    mk::check("t.flags.memory_device.Detail.SYNCHRONOUS.contained", f.contains(F::SYNCHRONOUS) == (x & 0x80 == 0x80));
    mk::check("t.flags.memory_device.Detail.CMOS.contained", f.contains(F::CMOS) == (x & 0x100 == 0x100));
    mk::check("t.flags.memory_device.Detail.EDO.contained", f.contains(F::EDO) == (x & 0x200 == 0x200));
    mk::check("t.flags.memory_device.Detail.WINDOW_DRAM.contained", f.contains(F::WINDOW_DRAM) == (x & 0x400 == 0x400));
    mk::check("t.flags.memory_device.Detail.CACHE_DRAM.contained", f.contains(F::CACHE_DRAM) == (x & 0x800 == 0x800));
    mk::check("t.flags.memory_device.Detail.NON_VOLATILE.contained", f.contains(F::NON_VOLATILE) == (x & 0x1000 == 0x1000));
    mk::check("t.flags.memory_device.Detail.REGISTERED.contained", f.contains(F::REGISTERED) == (x & 0x2000 == 0x2000));
    mk::check("t.flags.memory_device.Detail.UNREGISTERED.contained", f.contains(F::UNREGISTERED) == (x & 0x4000 == 0x4000));
    mk::check("t.flags.memory_device.Detail.LRDIMM.contained", f.contains(F::LRDIMM) == (x & 0x8000 == 0x8000));
}
pub fn memory_device_OperatingModes(x: u16) {
    use dmidecode::memory_device::OperatingModes as F;
    mk::check("t.flags.memory_device.OperatingModes.RESERVED", F::RESERVED.bits() == 0x0);
    mk::check("t.flags.memory_device.OperatingModes.OTHER", F::OTHER.bits() == 0x2);
    mk::check("t.flags.memory_device.OperatingModes.UNKNOWN", F::UNKNOWN.bits() == 0x4);
    mk::check("t.flags.memory_device.OperatingModes.VOLATILE", F::VOLATILE.bits() == 0x8);
    mk::check("t.flags.memory_device.OperatingModes.BYTE_ACCESSIBLE_PERSISTENT", F::BYTE_ACCESSIBLE_PERSISTENT.bits() == 0x10);
    mk::check("t.flags.memory_device.OperatingModes.BLOCK_ACCESSIBLE_PERSISTENT", F::BLOCK_ACCESSIBLE_PERSISTENT.bits() == 0x20);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.memory_device.OperatingModes.bits", f.bits() == x & 0x3e);
    mk::check("t.flags.memory_device.OperatingModes.RESERVED.contained", f.contains(F::RESERVED) == (x & 0x0 == 0x0));
    mk::check("t.flags.memory_device.OperatingModes.OTHER.contained", f.contains(F::OTHER) == (x & 0x2 == 0x2));
    mk::check("t.flags.memory_device.OperatingModes.UNKNOWN.contained", f.contains(F::UNKNOWN) == (x & 0x4 == 0x4));
    mk::check("t.flags.memory_device.OperatingModes.VOLATILE.contained", f.contains(F::VOLATILE) == (x & 0x8 == 0x8));
    mk::check("t.flags.memory_device.OperatingModes.BYTE_ACCESSIBLE_PERSISTENT.contained", f.contains(F::BYTE_ACCESSIBLE_PERSISTENT) == (x & 0x10 == 0x10));
    mk::check("t.flags.memory_device.OperatingModes.BLOCK_ACCESSIBLE_PERSISTENT.contained", f.contains(F::BLOCK_ACCESSIBLE_PERSISTENT) == (x & 0x20 == 0x20));
}
pub fn processor_ProcessorStatus(x: u8) {
    use dmidecode::processor::ProcessorStatus as F;
    mk::check("t.flags.processor.ProcessorStatus.CPU_SOCKET_POPULATED", F::CPU_SOCKET_POPULATED.bits() == 0x40);
    mk::check("t.flags.processor.ProcessorStatus.CPU_ENABLED", F::CPU_ENABLED.bits() == 0x1);
    mk::check("t.flags.processor.ProcessorStatus.CPU_DISABLED_BY_USER", F::CPU_DISABLED_BY_USER.bits() == 0x2);
    mk::check("t.flags.processor.ProcessorStatus.CPU_DISABLED_BY_BIOS", F::CPU_DISABLED_BY_BIOS.bits() == 0x3);
    mk::check("t.flags.processor.ProcessorStatus.CPU_IDLE", F::CPU_IDLE.bits() == 0x4);
    mk::check("t.flags.processor.ProcessorStatus.CPU_OTHER", F::CPU_OTHER.bits() == 0x7);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.processor.ProcessorStatus.bits", f.bits() == x & 0x47);
    mk::check("t.flags.processor.ProcessorStatus.CPU_SOCKET_POPULATED.contained", f.contains(F::CPU_SOCKET_POPULATED) == (x & 0x40 == 0x40));
    mk::check("t.flags.processor.ProcessorStatus.CPU_ENABLED.contained", f.contains(F::CPU_ENABLED) == (x & 0x1 == 0x1));
    mk::check("t.flags.processor.ProcessorStatus.CPU_DISABLED_BY_USER.contained", f.contains(F::CPU_DISABLED_BY_USER) == (x & 0x2 == 0x2));
    mk::check("t.flags.processor.ProcessorStatus.CPU_DISABLED_BY_BIOS.contained", f.contains(F::CPU_DISABLED_BY_BIOS) == (x & 0x3 == 0x3));
    mk::check("t.flags.processor.ProcessorStatus.CPU_IDLE.contained", f.contains(F::CPU_IDLE) == (x & 0x4 == 0x4));
    mk::check("t.flags.processor.ProcessorStatus.CPU_OTHER.contained", f.contains(F::CPU_OTHER) == (x & 0x7 == 0x7));
}
pub fn processor_ProcessorCharacteristics(x: u16) {
    use dmidecode::processor::ProcessorCharacteristics as F;
    mk::check("t.flags.processor.ProcessorCharacteristics.RESERVED", F::RESERVED.bits() == 0x1);
    mk::check("t.flags.processor.ProcessorCharacteristics.UNKNOWN", F::UNKNOWN.bits() == 0x2);
    mk::check("t.flags.processor.ProcessorCharacteristics.CAPABLE_64BIT", F::CAPABLE_64BIT.bits() == 0x4);
    mk::check("t.flags.processor.ProcessorCharacteristics.MULTICORE", F::MULTICORE.bits() == 0x8);
    mk::check("t.flags.processor.ProcessorCharacteristics.HARDWARE_THREAD", F::HARDWARE_THREAD.bits() == 0x10);
    mk::check("t.flags.processor.ProcessorCharacteristics.EXECUTE_PROTECTION", F::EXECUTE_PROTECTION.bits() == 0x20);
    mk::check("t.flags.processor.ProcessorCharacteristics.ENHANCED_VIRTUALIZATION", F::ENHANCED_VIRTUALIZATION.bits() == 0x40);
    mk::check("t.flags.processor.ProcessorCharacteristics.POWER_PERFORMANCE_CONTROL", F::POWER_PERFORMANCE_CONTROL.bits() == 0x80);
    mk::check("t.flags.processor.ProcessorCharacteristics.ARM64_SOC_ID", F::ARM64_SOC_ID.bits() == 0x200);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.processor.ProcessorCharacteristics.bits", f.bits() == x & 0x2ff);
    mk::check("t.flags.processor.ProcessorCharacteristics.RESERVED.contained", f.contains(F::RESERVED) == (x & 0x1 == 0x1));
    mk::check("t.flags.processor.ProcessorCharacteristics.UNKNOWN.contained", f.contains(F::UNKNOWN) == (x & 0x2 == 0x2));
    mk::check("t.flags.processor.ProcessorCharacteristics.CAPABLE_64BIT.contained", f.contains(F::CAPABLE_64BIT) == (x & 0x4 == 0x4));
    mk::check("t.flags.processor.ProcessorCharacteristics.MULTICORE.contained", f.contains(F::MULTICORE) == (x & 0x8 == 0x8));
    mk::check("t.flags.processor.ProcessorCharacteristics.HARDWARE_THREAD.contained", f.contains(F::HARDWARE_THREAD) == (x & 0x10 == 0x10));
    mk::check("t.flags.processor.ProcessorCharacteristics.EXECUTE_PROTECTION.contained", f.contains(F::EXECUTE_PROTECTION) == (x & 0x20 == 0x20));
    mk::check("t.flags.processor.ProcessorCharacteristics.ENHANCED_VIRTUALIZATION.contained", f.contains(F::ENHANCED_VIRTUALIZATION) == (x & 0x40 == 0x40));
    mk::check("t.flags.processor.ProcessorCharacteristics.POWER_PERFORMANCE_CONTROL.contained", f.contains(F::POWER_PERFORMANCE_CONTROL) == (x & 0x80 == 0x80));
    mk::check("t.flags.processor.ProcessorCharacteristics.ARM64_SOC_ID.contained", f.contains(F::ARM64_SOC_ID) == (x & 0x200 == 0x200));
}
pub fn processor_VoltageLegacy(x: u8) {
    use dmidecode::processor::VoltageLegacy as F;
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_5V0", F::VOLTAGE_CAPABILITY_5V0.bits() == 0x1);
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_3V3", F::VOLTAGE_CAPABILITY_3V3.bits() == 0x2);
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_2V9", F::VOLTAGE_CAPABILITY_2V9.bits() == 0x4);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.processor.VoltageLegacy.bits", f.bits() == x & 0x7);
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_5V0.contained", f.contains(F::VOLTAGE_CAPABILITY_5V0) == (x & 0x1 == 0x1));
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_3V3.contained", f.contains(F::VOLTAGE_CAPABILITY_3V3) == (x & 0x2 == 0x2));
    mk::check("t.flags.processor.VoltageLegacy.VOLTAGE_CAPABILITY_2V9.contained", f.contains(F::VOLTAGE_CAPABILITY_2V9) == (x & 0x4 == 0x4));
}
pub fn cache_CacheSramType(x: u16) {
    use dmidecode::cache::CacheSramType as F;
    mk::check("t.flags.cache.CacheSramType.OTHER", F::OTHER.bits() == 0x1);
    mk::check("t.flags.cache.CacheSramType.UNKNOWN", F::UNKNOWN.bits() == 0x2);
    mk::check("t.flags.cache.CacheSramType.NONBURST", F::NONBURST.bits() == 0x4);
    mk::check("t.flags.cache.CacheSramType.BURST", F::BURST.bits() == 0x8);
    mk::check("t.flags.cache.CacheSramType.PIPELINE_BURST", F::PIPELINE_BURST.bits() == 0x10);
    mk::check("t.flags.cache.CacheSramType.SYNCHRONOUS", F::SYNCHRONOUS.bits() == 0x20);
    mk::check("t.flags.cache.CacheSramType.ASYNCHRONOUS", F::ASYNCHRONOUS.bits() == 0x40);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.cache.CacheSramType.bits", f.bits() == x & 0x7f);
    mk::check("t.flags.cache.CacheSramType.OTHER.contained", f.contains(F::OTHER) == (x & 0x1 == 0x1));
    mk::check("t.flags.cache.CacheSramType.UNKNOWN.contained", f.contains(F::UNKNOWN) == (x & 0x2 == 0x2));
    mk::check("t.flags.cache.CacheSramType.NONBURST.contained", f.contains(F::NONBURST) == (x & 0x4 == 0x4));
    mk::check("t.flags.cache.CacheSramType.BURST.contained", f.contains(F::BURST) == (x & 0x8 == 0x8));
    mk::check("t.flags.cache.CacheSramType.PIPELINE_BURST.contained", f.contains(F::PIPELINE_BURST) == (x & 0x10 == 0x10));
    mk::check("t.flags.cache.CacheSramType.SYNCHRONOUS.contained", f.contains(F::SYNCHRONOUS) == (x & 0x20 == 0x20));
    mk::check("t.flags.cache.CacheSramType.ASYNCHRONOUS.contained", f.contains(F::ASYNCHRONOUS) == (x & 0x40 == 0x40));
}
pub fn baseboard_BaseBoardFlags(x: u8) {
    use dmidecode::baseboard::BaseBoardFlags as F;
    mk::check("t.flags.baseboard.BaseBoardFlags.HOSTING", F::HOSTING.bits() == 0x1);
    mk::check("t.flags.baseboard.BaseBoardFlags.REQUIRES_DAUGHTER", F::REQUIRES_DAUGHTER.bits() == 0x2);
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_REMOVABLE", F::IS_REMOVABLE.bits() == 0x4);
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_REPLACEABLE", F::IS_REPLACEABLE.bits() == 0x8);
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_HOT_SWAPPABLE", F::IS_HOT_SWAPPABLE.bits() == 0x10);
    let f = F::from_bits_truncate(x);
    mk::check("t.flags.baseboard.BaseBoardFlags.bits", f.bits() == x & 0x1f);
    mk::check("t.flags.baseboard.BaseBoardFlags.HOSTING.contained", f.contains(F::HOSTING) == (x & 0x1 == 0x1));
    mk::check("t.flags.baseboard.BaseBoardFlags.REQUIRES_DAUGHTER.contained", f.contains(F::REQUIRES_DAUGHTER) == (x & 0x2 == 0x2));
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_REMOVABLE.contained", f.contains(F::IS_REMOVABLE) == (x & 0x4 == 0x4));
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_REPLACEABLE.contained", f.contains(F::IS_REPLACEABLE) == (x & 0x8 == 0x8));
    mk::check("t.flags.baseboard.BaseBoardFlags.IS_HOT_SWAPPABLE.contained", f.contains(F::IS_HOT_SWAPPABLE) == (x & 0x10 == 0x10));
}
