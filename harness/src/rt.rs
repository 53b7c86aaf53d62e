//! Reference code tables and texts (generated by tools/gentables.py, reviewed against DSP0134, frozen).
#![allow(non_snake_case)]
use core::fmt;
pub mod bios {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::bios::*;
    pub struct DBiosRevision<'a>(pub &'a BiosRevision);
    impl fmt::Display for DBiosRevision<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.major == 0xFF && self.0.minor == 0xFF {
            write!(f, "N/A")
        } else {
            write!(f, "{}.{}", self.0.major, self.0.minor)
        }
        }
    }
    pub struct DFirmwareRevision<'a>(pub &'a FirmwareRevision);
    impl fmt::Display for DFirmwareRevision<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.major == 0xFF && self.0.minor == 0xFF {
            write!(f, "N/A")
        } else {
            write!(f, "{}.{}", self.0.major, self.0.minor)
        }
        }
    }
}
pub mod system {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::system::*;
    pub fn WakeupType_u8(_type: u8) -> WakeupType {
        match _type {
            0 => WakeupType::Reserved,
            1 => WakeupType::Other,
            2 => WakeupType::Unknown,
            3 => WakeupType::APM_Timer,
            4 => WakeupType::Modem_Ring,
            5 => WakeupType::LAN_Remote,
            6 => WakeupType::Power_Switch,
            7 => WakeupType::PCI_PME,
            8 => WakeupType::AC_Power_Restored,
            t => WakeupType::Undefined(t),
        }
    }
}
pub mod baseboard {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::baseboard::*;
    pub fn BoardType_u8(_type: u8) -> BoardType {
        match _type {
            1 => BoardType::Unknown,
            2 => BoardType::Other,
            3 => BoardType::ServerBlade,
            4 => BoardType::ConnectivitySwitch,
            5 => BoardType::SystemManagementModule,
            6 => BoardType::ProcessorModule,
            7 => BoardType::IoModule,
            8 => BoardType::MemoryModule,
            9 => BoardType::DaughterBoard,
            10 => BoardType::MotherBoard,
            11 => BoardType::ProcessorMemoryModule,
            12 => BoardType::ProcessorIoModule,
            13 => BoardType::InterconnectBoard,
            t => BoardType::Undefined(t),
        }
    }
    pub struct DBoardType<'a>(pub &'a BoardType);
    impl fmt::Display for DBoardType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            BoardType::Unknown => write!(f, "Unknown"),
            BoardType::Other => write!(f, "Other"),
            BoardType::ServerBlade => write!(f, "Server Blade"),
            BoardType::ConnectivitySwitch => write!(f, "Connectivity Switch"),
            BoardType::SystemManagementModule => write!(f, "System Management Module"),
            BoardType::ProcessorModule => write!(f, "Processor Module"),
            BoardType::IoModule => write!(f, "I/O Module"),
            BoardType::MemoryModule => write!(f, "Memory Module"),
            BoardType::DaughterBoard => write!(f, "Daughter board"),
            BoardType::MotherBoard => {
                write!(f, "Motherboard (includes processor, memory, and I/O)")
            }
            BoardType::ProcessorMemoryModule => write!(f, "Processor/Memory Module"),
            BoardType::ProcessorIoModule => write!(f, "Processor/IO Module"),
            BoardType::InterconnectBoard => write!(f, "Interconnect board"),
            BoardType::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
}
pub mod enclosure {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::enclosure::*;
    pub fn EnclosureType_u8(byte: u8) -> EnclosureType {
        match byte {
            0x01 => EnclosureType::Other,
            0x02 => EnclosureType::Unknown,
            0x03 => EnclosureType::Desktop,
            0x04 => EnclosureType::LowProfileDesktop,
            0x05 => EnclosureType::PizzaBox,
            0x06 => EnclosureType::MiniTower,
            0x07 => EnclosureType::Tower,
            0x08 => EnclosureType::Portable,
            0x09 => EnclosureType::Laptop,
            0x0A => EnclosureType::Notebook,
            0x0B => EnclosureType::HandHeld,
            0x0C => EnclosureType::DockingStation,
            0x0D => EnclosureType::AllInOne,
            0x0E => EnclosureType::SubNotebook,
            0x0F => EnclosureType::SpaceSaving,
            0x10 => EnclosureType::LunchBox,
            0x11 => EnclosureType::MainServerChassis,
            0x12 => EnclosureType::ExpansionChassis,
            0x13 => EnclosureType::SubChassis,
            0x14 => EnclosureType::BusExpansionChassis,
            0x15 => EnclosureType::PeripheralChassis,
            0x16 => EnclosureType::RaidChassis,
            0x17 => EnclosureType::RackMountChassis,
            0x18 => EnclosureType::SealedCasePc,
            0x19 => EnclosureType::MultiSystemChassis,
            0x1A => EnclosureType::CompactPci,
            0x1B => EnclosureType::AdvancedTca,
            0x1C => EnclosureType::Blade,
            0x1D => EnclosureType::BladeEnclosure,
            0x1E => EnclosureType::Tablet,
            0x1F => EnclosureType::Convertible,
            0x20 => EnclosureType::Detachable,
            0x21 => EnclosureType::IotGateway,
            0x22 => EnclosureType::EmbeddedPc,
            0x23 => EnclosureType::MiniPc,
            0x24 => EnclosureType::StickPc,
            v => EnclosureType::Undefined(v),
        }
    }
    pub fn State_u8(byte: u8) -> State {
        match byte {
            0x01 => State::Other,
            0x02 => State::Unknown,
            0x03 => State::Safe,
            0x04 => State::Warning,
            0x05 => State::Critical,
            0x06 => State::NonRecoverable,
            v => State::Undefined(v),
        }
    }
    pub fn SecurityStatus_u8(byte: u8) -> SecurityStatus {
        match byte {
            0x01 => SecurityStatus::Other,
            0x02 => SecurityStatus::Unknown,
            0x03 => SecurityStatus::None,
            0x04 => SecurityStatus::ExternalInterfaceLockedOut,
            0x05 => SecurityStatus::ExternalInterfaceEnabled,
            v => SecurityStatus::Undefined(v),
        }
    }
    pub struct DEnclosureType<'a>(pub &'a EnclosureType);
    impl fmt::Display for DEnclosureType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            EnclosureType::Other => write!(f, "Other"),
            EnclosureType::Unknown => write!(f, "Unknown"),
            EnclosureType::Desktop => write!(f, "Desktop"),
            EnclosureType::LowProfileDesktop => write!(f, "Low Profile Desktop"),
            EnclosureType::PizzaBox => write!(f, "Pizza Box"),
            EnclosureType::MiniTower => write!(f, "Mini Tower"),
            EnclosureType::Tower => write!(f, "Tower"),
            EnclosureType::Portable => write!(f, "Portable"),
            EnclosureType::Laptop => write!(f, "Laptop"),
            EnclosureType::Notebook => write!(f, "Notebook"),
            EnclosureType::HandHeld => write!(f, "Hand Held"),
            EnclosureType::DockingStation => write!(f, "Docking Station"),
            EnclosureType::AllInOne => write!(f, "All in One"),
            EnclosureType::SubNotebook => write!(f, "Sub Notebook"),
            EnclosureType::SpaceSaving => write!(f, "Space-saving"),
            EnclosureType::LunchBox => write!(f, "Lunch Box"),
            EnclosureType::MainServerChassis => write!(f, "Main Server Chassis"),
            EnclosureType::ExpansionChassis => write!(f, "Expansion Chassis"),
            EnclosureType::SubChassis => write!(f, "SubChassis"),
            EnclosureType::BusExpansionChassis => write!(f, "Bus Expansion Chassis"),
            EnclosureType::PeripheralChassis => write!(f, "Peripheral Chassis"),
            EnclosureType::RaidChassis => write!(f, "RAID Chassis"),
            EnclosureType::RackMountChassis => write!(f, "Rack Mount Chassis"),
            EnclosureType::SealedCasePc => write!(f, "Sealed-case PC"),
            EnclosureType::MultiSystemChassis => write!(f, "Multi-system chassis"),
            EnclosureType::CompactPci => write!(f, "Compact PCI"),
            EnclosureType::AdvancedTca => write!(f, "Advanced TCA"),
            EnclosureType::Blade => write!(f, "Blade"),
            EnclosureType::BladeEnclosure => write!(f, "Blade Enclosure"),
            EnclosureType::Tablet => write!(f, "Tablet"),
            EnclosureType::Convertible => write!(f, "Convertible"),
            EnclosureType::Detachable => write!(f, "Detachable"),
            EnclosureType::IotGateway => write!(f, "IoT Gateway"),
            EnclosureType::EmbeddedPc => write!(f, "Embedded PC"),
            EnclosureType::MiniPc => write!(f, "Mini PC"),
            EnclosureType::StickPc => write!(f, "Stick PC"),
            EnclosureType::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DState<'a>(pub &'a State);
    impl fmt::Display for DState<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            State::Other => write!(f, "Other"),
            State::Unknown => write!(f, "Unknown"),
            State::Safe => write!(f, "Safe"),
            State::Warning => write!(f, "Warning"),
            State::Critical => write!(f, "Critical"),
            State::NonRecoverable => write!(f, "Non-recoverable"),
            State::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DSecurityStatus<'a>(pub &'a SecurityStatus);
    impl fmt::Display for DSecurityStatus<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SecurityStatus::Other => write!(f, "Other"),
            SecurityStatus::Unknown => write!(f, "Unknown"),
            SecurityStatus::None => write!(f, "None"),
            SecurityStatus::ExternalInterfaceLockedOut => write!(f, "External interface locked out"),
            SecurityStatus::ExternalInterfaceEnabled => write!(f, "External interface enabled"),
            SecurityStatus::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DContainedElementType<'a>(pub &'a ContainedElementType);
    impl fmt::Display for DContainedElementType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ContainedElementType::BoardType(board) => write!(f, "Baseboard type: {board}"),
            ContainedElementType::InfoType(info) => write!(f, "Structure type: {info}"),
        }
        }
    }
}
pub mod processor {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::processor::*;
    pub fn ProcessorType_u8(_type: u8) -> ProcessorType {
        match _type {
            1 => ProcessorType::Other,
            2 => ProcessorType::Unknown,
            3 => ProcessorType::CentralProcessor,
            4 => ProcessorType::MathProcessor,
            5 => ProcessorType::DspProcessor,
            6 => ProcessorType::VideoProcessor,
            t => ProcessorType::Undefined(t),
        }
    }
    pub fn ProcessorFamily_u16(word: u16) -> ProcessorFamily {
        match word {
            0x00 => ProcessorFamily::OutOfSpec,
            0x01 => ProcessorFamily::Other,
            0x02 => ProcessorFamily::Unknown,
            0x03 => ProcessorFamily::Intel8086,
            0x04 => ProcessorFamily::Intel80286,
            0x05 => ProcessorFamily::Intel386Processor,
            0x06 => ProcessorFamily::Intel486Processor,
            0x07 => ProcessorFamily::Intel8087,
            0x08 => ProcessorFamily::Intel80287,
            0x09 => ProcessorFamily::Intel80387,
            0x0A => ProcessorFamily::Intel80487,
            0x0B => ProcessorFamily::IntelPentiumProcessor,
            0x0C => ProcessorFamily::PentiumProProcessor,
            0x0D => ProcessorFamily::PentiumIIProcessor,
            0x0E => ProcessorFamily::PentiumProcessorWithMMXTechnology,
            0x0F => ProcessorFamily::IntelCeleronProcessor,
            0x10 => ProcessorFamily::PentiumIIXeonProcessor,
            0x11 => ProcessorFamily::PentiumIIIProcessor,
            0x12 => ProcessorFamily::M1Family,
            0x13 => ProcessorFamily::M2Family,
            0x14 => ProcessorFamily::IntelCeleronMProcessor,
            0x15 => ProcessorFamily::IntelPentium4HTProcessor,
            n @ 0x16..=0x17 => ProcessorFamily::Available(n),
            0x18 => ProcessorFamily::AMDDuronProcessorFamily,
            0x19 => ProcessorFamily::K5Family,
            0x1A => ProcessorFamily::K6Family,
            0x1B => ProcessorFamily::K62,
            0x1C => ProcessorFamily::K63,
            0x1D => ProcessorFamily::AMDAthlonProcessorFamily,
            0x1E => ProcessorFamily::AMD29000Family,
            0x1F => ProcessorFamily::K62Plus,
            0x20 => ProcessorFamily::PowerPCFamily,
            0x21 => ProcessorFamily::PowerPC601,
            0x22 => ProcessorFamily::PowerPC603,
            0x23 => ProcessorFamily::PowerPC603Plus,
            0x24 => ProcessorFamily::PowerPC604,
            0x25 => ProcessorFamily::PowerPC620,
            0x26 => ProcessorFamily::PowerPCX704,
            0x27 => ProcessorFamily::PowerPC750,
            0x28 => ProcessorFamily::IntelCoreDuoProcessor,
            0x29 => ProcessorFamily::IntelCoreDuoMobileProcessor,
            0x2A => ProcessorFamily::IntelCoreSoloMobileProcessor,
            0x2B => ProcessorFamily::IntelAtomProcessor,
            0x2C => ProcessorFamily::IntelCoreMProcessor,
            0x2D => ProcessorFamily::IntelCoreM3Processor,
            0x2E => ProcessorFamily::IntelCoreM5Processor,
            0x2F => ProcessorFamily::IntelCoreM7Processor,
            0x30 => ProcessorFamily::AlphaFamily,
            0x31 => ProcessorFamily::Alpha21064,
            0x32 => ProcessorFamily::Alpha21066,
            0x33 => ProcessorFamily::Alpha21164,
            0x34 => ProcessorFamily::Alpha21164PC,
            0x35 => ProcessorFamily::Alpha21164a,
            0x36 => ProcessorFamily::Alpha21264,
            0x37 => ProcessorFamily::Alpha21364,
            0x38 => ProcessorFamily::AMDTurionIIUltraDualCoreMobileMProcessorFamily,
            0x39 => ProcessorFamily::AMDTurionIIDualCoreMobileMProcessorFamily,
            0x3A => ProcessorFamily::AMDAthlonIIDualCoreMProcessorFamily,
            0x3B => ProcessorFamily::AMDOpteron6100SeriesProcessor,
            0x3C => ProcessorFamily::AMDOpteron4100SeriesProcessor,
            0x3D => ProcessorFamily::AMDOpteron6200SeriesProcessor,
            0x3E => ProcessorFamily::AMDOpteron4200SeriesProcessor,
            0x3F => ProcessorFamily::AMDFXSeriesProcessor,
            0x40 => ProcessorFamily::MIPSFamily,
            0x41 => ProcessorFamily::MIPSR4000,
            0x42 => ProcessorFamily::MIPSR4200,
            0x43 => ProcessorFamily::MIPSR4400,
            0x44 => ProcessorFamily::MIPSR4600,
            0x45 => ProcessorFamily::MIPSR10000,
            0x46 => ProcessorFamily::AMDCSeriesProcessor,
            0x47 => ProcessorFamily::AMDESeriesProcessor,
            0x48 => ProcessorFamily::AMDASeriesProcessor,
            0x49 => ProcessorFamily::AMDGSeriesProcessor,
            0x4A => ProcessorFamily::AMDZSeriesProcessor,
            0x4B => ProcessorFamily::AMDRSeriesProcessor,
            0x4C => ProcessorFamily::AMDOpteron4300SeriesProcessor,
            0x4D => ProcessorFamily::AMDOpteron6300SeriesProcessor,
            0x4E => ProcessorFamily::AMDOpteron3300SeriesProcessor,
            0x4F => ProcessorFamily::AMDFireProSeriesProcessor,
            0x50 => ProcessorFamily::SPARCFamily,
            0x51 => ProcessorFamily::SuperSPARC,
            0x52 => ProcessorFamily::MicroSPARCII,
            0x53 => ProcessorFamily::MicroSPARCIIep,
            0x54 => ProcessorFamily::UltraSPARC,
            0x55 => ProcessorFamily::UltraSPARCII,
            0x56 => ProcessorFamily::UltraSPARCIii,
            0x57 => ProcessorFamily::UltraSPARCIII,
            0x58 => ProcessorFamily::UltraSPARCIIIi,
            n @ 0x59..=0x5F => ProcessorFamily::Available(n),
            0x60 => ProcessorFamily::Motorola68040Family,
            0x61 => ProcessorFamily::Motorola68xxx,
            0x62 => ProcessorFamily::Motorola68000,
            0x63 => ProcessorFamily::Motorola68010,
            0x64 => ProcessorFamily::Motorola68020,
            0x65 => ProcessorFamily::Motorola68030,
            0x66 => ProcessorFamily::AMDAthlonX4QuadCoreProcessorFamily,
            0x67 => ProcessorFamily::AMDOpteronX1000SeriesProcessor,
            0x68 => ProcessorFamily::AMDOpteronX2000SeriesAPU,
            0x69 => ProcessorFamily::AMDOpteronASeriesProcessor,
            0x6A => ProcessorFamily::AMDOpteronX3000SeriesAPU,
            0x6B => ProcessorFamily::AMDZenProcessorFamily,
            n @ 0x6C..=0x6F => ProcessorFamily::Available(n),
            0x70 => ProcessorFamily::HobbitFamily,
            n @ 0x71..=0x77 => ProcessorFamily::Available(n),
            0x78 => ProcessorFamily::CrusoeTM5000Family,
            0x79 => ProcessorFamily::CrusoeTM3000Family,
            0x7A => ProcessorFamily::EfficeonTM8000Family,
            n @ 0x7B..=0x7F => ProcessorFamily::Available(n),
            0x80 => ProcessorFamily::Weitek,
            n @ 0x81 => ProcessorFamily::Available(n),
            0x82 => ProcessorFamily::ItaniumProcessor,
            0x83 => ProcessorFamily::AMDAthlon64ProcessorFamily,
            0x84 => ProcessorFamily::AMDOpteronProcessorFamily,
            0x85 => ProcessorFamily::AMDSempronProcessorFamily,
            0x86 => ProcessorFamily::AMDTurion64MobileTechnology,
            0x87 => ProcessorFamily::DualCoreAMDOpteronProcessorFamily,
            0x88 => ProcessorFamily::AMDAthlon64X2DualCoreProcessorFamily,
            0x89 => ProcessorFamily::AMDTurion64X2MobileTechnology,
            0x8A => ProcessorFamily::QuadCoreAMDOpteronProcessorFamily,
            0x8B => ProcessorFamily::ThirdGenerationAMDOpteronProcessorFamily,
            0x8C => ProcessorFamily::AMDPhenomFXQuadCoreProcessorFamily,
            0x8D => ProcessorFamily::AMDPhenomX4QuadCoreProcessorFamily,
            0x8E => ProcessorFamily::AMDPhenomX2DualCoreProcessorFamily,
            0x8F => ProcessorFamily::AMDAthlonX2DualCoreProcessorFamily,
            0x90 => ProcessorFamily::PARISCFamily,
            0x91 => ProcessorFamily::PARISC8500,
            0x92 => ProcessorFamily::PARISC8000,
            0x93 => ProcessorFamily::PARISC7300LC,
            0x94 => ProcessorFamily::PARISC7200,
            0x95 => ProcessorFamily::PARISC7100LC,
            0x96 => ProcessorFamily::PARISC7100,
            n @ 0x97..=0x9F => ProcessorFamily::Available(n),
            0xA0 => ProcessorFamily::V30Family,
            0xA1 => ProcessorFamily::QuadCoreIntelXeonProcessor3200Series,
            0xA2 => ProcessorFamily::DualCoreIntelXeonProcessor3000Series,
            0xA3 => ProcessorFamily::QuadCoreIntelXeonProcessor5300Series,
            0xA4 => ProcessorFamily::DualCoreIntelXeonProcessor5100Series,
            0xA5 => ProcessorFamily::DualCoreIntelXeonProcessor5000Series,
            0xA6 => ProcessorFamily::DualCoreIntelXeonProcessorLV,
            0xA7 => ProcessorFamily::DualCoreIntelXeonProcessorULV,
            0xA8 => ProcessorFamily::DualCoreIntelXeonProcessor7100Series,
            0xA9 => ProcessorFamily::QuadCoreIntelXeonProcessor5400Series,
            0xAA => ProcessorFamily::QuadCoreIntelXeonProcessor,
            0xAB => ProcessorFamily::DualCoreIntelXeonProcessor5200Series,
            0xAC => ProcessorFamily::DualCoreIntelXeonProcessor7200Series,
            0xAD => ProcessorFamily::QuadCoreIntelXeonProcessor7300Series,
            0xAE => ProcessorFamily::QuadCoreIntelXeonProcessor7400Series,
            0xAF => ProcessorFamily::MultiCoreIntelXeonProcessor7400Series,
            0xB0 => ProcessorFamily::PentiumIIIXeonProcessor,
            0xB1 => ProcessorFamily::PentiumIIIProcessorWithIntelSpeedStepTechnology,
            0xB2 => ProcessorFamily::Pentium4Processor,
            0xB3 => ProcessorFamily::IntelXeonProcessor,
            0xB4 => ProcessorFamily::AS400Family,
            0xB5 => ProcessorFamily::IntelXeonProcessorMP,
            0xB6 => ProcessorFamily::AMDAthlonXPProcessorFamily,
            0xB7 => ProcessorFamily::AMDAthlonMPProcessorFamily,
            0xB8 => ProcessorFamily::IntelItanium2Processor,
            0xB9 => ProcessorFamily::IntelPentiumMProcessor,
            0xBA => ProcessorFamily::IntelCeleronDProcessor,
            0xBB => ProcessorFamily::IntelPentiumDProcessor,
            0xBC => ProcessorFamily::IntelPentiumProcessorExtremeEdition,
            0xBD => ProcessorFamily::IntelCoreSoloProcessor,
            0xBE => ProcessorFamily::Ambiguous,
            0xBF => ProcessorFamily::IntelCore2DuoProcessor,
            0xC0 => ProcessorFamily::IntelCore2SoloProcessor,
            0xC1 => ProcessorFamily::IntelCore2ExtremeProcessor,
            0xC2 => ProcessorFamily::IntelCore2QuadProcessor,
            0xC3 => ProcessorFamily::IntelCore2ExtremeMobileProcessor,
            0xC4 => ProcessorFamily::IntelCore2DuoMobileProcessor,
            0xC5 => ProcessorFamily::IntelCore2SoloMobileProcessor,
            0xC6 => ProcessorFamily::IntelCoreI7Processor,
            0xC7 => ProcessorFamily::DualCoreIntelCeleronProcessor,
            0xC8 => ProcessorFamily::IBM390Family,
            0xC9 => ProcessorFamily::G4,
            0xCA => ProcessorFamily::G5,
            0xCB => ProcessorFamily::ESA390G6,
            0xCC => ProcessorFamily::ZArchitectureBase,
            0xCD => ProcessorFamily::IntelCoreI5Processor,
            0xCE => ProcessorFamily::IntelCoreI3Processor,
            0xCF => ProcessorFamily::IntelCoreI9Processor,
            n @ 0xD0..=0xD1 => ProcessorFamily::Available(n),
            0xD2 => ProcessorFamily::VIAC7MProcessorFamily,
            0xD3 => ProcessorFamily::VIAC7DProcessorFamily,
            0xD4 => ProcessorFamily::VIAC7ProcessorFamily,
            0xD5 => ProcessorFamily::VIAEdenProcessorFamily,
            0xD6 => ProcessorFamily::MultiCoreIntelXeonProcessor,
            0xD7 => ProcessorFamily::DualCoreIntelXeonProcessor3xxxSeries,
            0xD8 => ProcessorFamily::QuadCoreIntelXeonProcessor3xxxSeries,
            0xD9 => ProcessorFamily::VIANanoProcessorFamily,
            0xDA => ProcessorFamily::DualCoreIntelXeonProcessor5xxxSeries,
            0xDB => ProcessorFamily::QuadCoreIntelXeonProcessor5xxxSeries,
            n @ 0xDC => ProcessorFamily::Available(n),
            0xDD => ProcessorFamily::DualCoreIntelXeonProcessor7xxxSeries,
            0xDE => ProcessorFamily::QuadCoreIntelXeonProcessor7xxxSeries,
            0xDF => ProcessorFamily::MultiCoreIntelXeonProcessor7xxxSeries,
            0xE0 => ProcessorFamily::MultiCoreIntelXeonProcessor3400Series,
            n @ 0xE1..=0xE3 => ProcessorFamily::Available(n),
            0xE4 => ProcessorFamily::AMDOpteron3000SeriesProcessor,
            0xE5 => ProcessorFamily::AMDSempronIIProcessor,
            0xE6 => ProcessorFamily::EmbeddedAMDOpteronQuadCoreProcessorFamily,
            0xE7 => ProcessorFamily::AMDPhenomTripleCoreProcessorFamily,
            0xE8 => ProcessorFamily::AMDTurionUltraDualCoreMobileProcessorFamily,
            0xE9 => ProcessorFamily::AMDTurionDualCoreMobileProcessorFamily,
            0xEA => ProcessorFamily::AMDAthlonDualCoreProcessorFamily,
            0xEB => ProcessorFamily::AMDSempronSIProcessorFamily,
            0xEC => ProcessorFamily::AMDPhenomIIProcessorFamily,
            0xED => ProcessorFamily::AMDAthlonIIProcessorFamily,
            0xEE => ProcessorFamily::SixCoreAMDOpteronProcessorFamily,
            0xEF => ProcessorFamily::AMDSempronMProcessorFamily,
            n @ 0xF0..=0xF9 => ProcessorFamily::Available(n),
            0xFA => ProcessorFamily::I860,
            0xFB => ProcessorFamily::I960,
            n @ 0xFC..=0xFD => ProcessorFamily::Available(n),
            0xFE => ProcessorFamily::ProcessorFamily2,
            n @ 0xFF => ProcessorFamily::NotUsed(n),
            0x100 => ProcessorFamily::ARMv7,
            0x101 => ProcessorFamily::ARMv8,
            0x102 => ProcessorFamily::ARMv9,
            0x103 => ProcessorFamily::Available(0x103),
            0x104 => ProcessorFamily::SH3,
            0x105 => ProcessorFamily::SH4,
            n @ 0x106..=0x117 => ProcessorFamily::Available(n),
            0x118 => ProcessorFamily::ARM,
            0x119 => ProcessorFamily::StrongARM,
            n @ 0x11A..=0x12B => ProcessorFamily::Available(n),
            0x12C => ProcessorFamily::Cyrix6x86,
            0x12D => ProcessorFamily::MediaGX,
            0x12E => ProcessorFamily::MII,
            n @ 0x12F..=0x13F => ProcessorFamily::Available(n),
            0x140 => ProcessorFamily::WinChip,
            n @ 0x141..=0x15D => ProcessorFamily::Available(n),
            0x15E => ProcessorFamily::DSP,
            n @ 0x15F..=0x1F3 => ProcessorFamily::Available(n),
            0x1F4 => ProcessorFamily::VideoProcessor,
            n @ 0x1F5..=0x1FF => ProcessorFamily::Available(n),
            0x200 => ProcessorFamily::RISCVRV32,
            0x201 => ProcessorFamily::RISCVRV64,
            0x202 => ProcessorFamily::RISCVRV128,
            n @ 0x203..=0xFFFD => ProcessorFamily::Available(n),
            0xFFFE => ProcessorFamily::ForFutureUse,
            n @ 0xFFFF => ProcessorFamily::NotUsed(n),
        }
    }
    pub fn ProcessorUpgrade_u8(byte: u8) -> ProcessorUpgrade {
        match byte {
            0x01 => ProcessorUpgrade::Other,
            0x02 => ProcessorUpgrade::Unknown,
            0x03 => ProcessorUpgrade::DaughterBoard,
            0x04 => ProcessorUpgrade::ZIFSocket,
            0x05 => ProcessorUpgrade::ReplaceablePiggyBack,
            0x06 => ProcessorUpgrade::None,
            0x07 => ProcessorUpgrade::LIFSocket,
            0x08 => ProcessorUpgrade::Slot1,
            0x09 => ProcessorUpgrade::Slot2,
            0x0a => ProcessorUpgrade::Socket370,
            0x0b => ProcessorUpgrade::SlotA,
            0x0c => ProcessorUpgrade::SlotM,
            0x0d => ProcessorUpgrade::Socket423,
            0x0e => ProcessorUpgrade::SocketA,
            0x0f => ProcessorUpgrade::Socket478,
            0x10 => ProcessorUpgrade::Socket754,
            0x11 => ProcessorUpgrade::Socket940,
            0x12 => ProcessorUpgrade::Socket939,
            0x13 => ProcessorUpgrade::SocketmPGA604,
            0x14 => ProcessorUpgrade::SocketLGA771,
            0x15 => ProcessorUpgrade::SocketLGA775,
            0x16 => ProcessorUpgrade::SocketS1,
            0x17 => ProcessorUpgrade::SocketAM2,
            0x18 => ProcessorUpgrade::SocketF,
            0x19 => ProcessorUpgrade::SocketLGA1366,
            0x1a => ProcessorUpgrade::SocketG34,
            0x1b => ProcessorUpgrade::SocketAM3,
            0x1c => ProcessorUpgrade::SocketC32,
            0x1d => ProcessorUpgrade::SocketLGA1156,
            0x1e => ProcessorUpgrade::SocketLGA1567,
            0x1f => ProcessorUpgrade::SocketPGA988A,
            0x20 => ProcessorUpgrade::SocketBGA1288,
            0x21 => ProcessorUpgrade::SocketrPGA988B,
            0x22 => ProcessorUpgrade::SocketBGA1023,
            0x23 => ProcessorUpgrade::SocketBGA1224,
            0x24 => ProcessorUpgrade::SocketLGA1155,
            0x25 => ProcessorUpgrade::SocketLGA1356,
            0x26 => ProcessorUpgrade::SocketLGA2011,
            0x27 => ProcessorUpgrade::SocketFS1,
            0x28 => ProcessorUpgrade::SocketFS2,
            0x29 => ProcessorUpgrade::SocketFM1,
            0x2a => ProcessorUpgrade::SocketFM2,
            0x2b => ProcessorUpgrade::SocketLGA2011Three,
            0x2c => ProcessorUpgrade::SocketLGA1356Three,
            0x2d => ProcessorUpgrade::SocketLGA1150,
            0x2e => ProcessorUpgrade::SocketBGA1168,
            0x2f => ProcessorUpgrade::SocketBGA1234,
            0x30 => ProcessorUpgrade::SocketBGA1364,
            0x31 => ProcessorUpgrade::SocketAM4,
            0x32 => ProcessorUpgrade::SocketLGA1151,
            0x33 => ProcessorUpgrade::SocketBGA1356,
            0x34 => ProcessorUpgrade::SocketBGA1440,
            0x35 => ProcessorUpgrade::SocketBGA1515,
            0x36 => ProcessorUpgrade::SocketLGA3647,
            0x37 => ProcessorUpgrade::SocketSP3,
            0x38 => ProcessorUpgrade::SocketSP3r2,
            0x39 => ProcessorUpgrade::SocketLGA2066,
            0x3a => ProcessorUpgrade::SocketBGA1392,
            0x3b => ProcessorUpgrade::SocketBGA1510,
            0x3c => ProcessorUpgrade::SocketBGA1528,
            0x3d => ProcessorUpgrade::SocketLGA4189,
            0x3e => ProcessorUpgrade::SocketLGA1200,
            n => ProcessorUpgrade::Undefined(n),
        }
    }
    pub struct DProcessorFamily<'a>(pub &'a ProcessorFamily);
    impl fmt::Display for DProcessorFamily<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ProcessorFamily::Other => write!(f, "Other"),
            ProcessorFamily::Unknown => write!(f, "Unknown"),
            ProcessorFamily::Intel8086 => write!(f, "8086"),
            ProcessorFamily::Intel80286 => write!(f, "80286"),
            ProcessorFamily::Intel386Processor => write!(f, "Intel386™ processor"),
            ProcessorFamily::Intel486Processor => write!(f, "Intel486™ processor"),
            ProcessorFamily::Intel8087 => write!(f, "8087"),
            ProcessorFamily::Intel80287 => write!(f, "80287"),
            ProcessorFamily::Intel80387 => write!(f, "80387"),
            ProcessorFamily::Intel80487 => write!(f, "80487"),
            ProcessorFamily::IntelPentiumProcessor => write!(f, "Intel® Pentium® processor"),
            ProcessorFamily::PentiumProProcessor => write!(f, "Pentium® Pro processor"),
            ProcessorFamily::PentiumIIProcessor => write!(f, "Pentium® II processor"),
            ProcessorFamily::PentiumProcessorWithMMXTechnology => {
                write!(f, "Pentium® processor with MMX™ technology")
            }
            ProcessorFamily::IntelCeleronProcessor => write!(f, "Intel® Celeron® processor"),
            ProcessorFamily::PentiumIIXeonProcessor => write!(f, "Pentium® II Xeon™ processor"),
            ProcessorFamily::PentiumIIIProcessor => write!(f, "Pentium® III processor"),
            ProcessorFamily::M1Family => write!(f, "M1 Family"),
            ProcessorFamily::M2Family => write!(f, "M2 Family"),
            ProcessorFamily::IntelCeleronMProcessor => write!(f, "Intel® Celeron® M processor"),
            ProcessorFamily::IntelPentium4HTProcessor => {
                write!(f, "Intel® Pentium® 4 HT processor")
            }
            ProcessorFamily::AMDDuronProcessorFamily => {
                write!(f, "AMD Duron™ Processor Family [1]")
            }
            ProcessorFamily::K5Family => write!(f, "K5 Family [1]"),
            ProcessorFamily::K6Family => write!(f, "K6 Family [1]"),
            ProcessorFamily::K62 => write!(f, "K6-2"),
            ProcessorFamily::K63 => write!(f, "K6-3"),
            ProcessorFamily::AMDAthlonProcessorFamily => {
                write!(f, "AMD Athlon™ Processor Family [1]")
            }
            ProcessorFamily::AMD29000Family => write!(f, "AMD29000 Family"),
            ProcessorFamily::K62Plus => write!(f, "K6-2+"),
            ProcessorFamily::PowerPCFamily => write!(f, "Power PC Family"),
            ProcessorFamily::PowerPC601 => write!(f, "Power PC 601"),
            ProcessorFamily::PowerPC603 => write!(f, "Power PC 603"),
            ProcessorFamily::PowerPC603Plus => write!(f, "Power PC 603+"),
            ProcessorFamily::PowerPC604 => write!(f, "Power PC 604"),
            ProcessorFamily::PowerPC620 => write!(f, "Power PC 620"),
            ProcessorFamily::PowerPCX704 => write!(f, "Power PC x704"),
            ProcessorFamily::PowerPC750 => write!(f, "Power PC 750"),
            ProcessorFamily::IntelCoreDuoProcessor => write!(f, "Intel® Core™ Duo processor"),
            ProcessorFamily::IntelCoreDuoMobileProcessor => {
                write!(f, "Intel® Core™ Duo mobile processor")
            }
            ProcessorFamily::IntelCoreSoloMobileProcessor => {
                write!(f, "Intel® Core™ Solo mobile processor")
            }
            ProcessorFamily::IntelAtomProcessor => write!(f, "Intel® Atom™ processor"),
            ProcessorFamily::IntelCoreMProcessor => write!(f, "Intel® Core™ M processor"),
            ProcessorFamily::IntelCoreM3Processor => write!(f, "Intel(R) Core(TM) m3 processor"),
            ProcessorFamily::IntelCoreM5Processor => write!(f, "Intel(R) Core(TM) m5 processor"),
            ProcessorFamily::IntelCoreM7Processor => write!(f, "Intel(R) Core(TM) m7 processor"),
            ProcessorFamily::AlphaFamily => write!(f, "Alpha Family [2]"),
            ProcessorFamily::Alpha21064 => write!(f, "Alpha 21064"),
            ProcessorFamily::Alpha21066 => write!(f, "Alpha 21066"),
            ProcessorFamily::Alpha21164 => write!(f, "Alpha 21164"),
            ProcessorFamily::Alpha21164PC => write!(f, "Alpha 21164PC"),
            ProcessorFamily::Alpha21164a => write!(f, "Alpha 21164a"),
            ProcessorFamily::Alpha21264 => write!(f, "Alpha 21264"),
            ProcessorFamily::Alpha21364 => write!(f, "Alpha 21364"),
            ProcessorFamily::AMDTurionIIUltraDualCoreMobileMProcessorFamily => {
                write!(f, "AMD Turion™ II Ultra Dual-Core Mobile M Processor Family")
            }
            ProcessorFamily::AMDTurionIIDualCoreMobileMProcessorFamily => {
                write!(f, "AMD Turion™ II Dual-Core Mobile M Processor Family")
            }
            ProcessorFamily::AMDAthlonIIDualCoreMProcessorFamily => {
                write!(f, "AMD Athlon™ II Dual-Core M Processor Family")
            }
            ProcessorFamily::AMDOpteron6100SeriesProcessor => {
                write!(f, "AMD Opteron™ 6100 Series Processor")
            }
            ProcessorFamily::AMDOpteron4100SeriesProcessor => {
                write!(f, "AMD Opteron™ 4100 Series Processor")
            }
            ProcessorFamily::AMDOpteron6200SeriesProcessor => {
                write!(f, "AMD Opteron™ 6200 Series Processor")
            }
            ProcessorFamily::AMDOpteron4200SeriesProcessor => {
                write!(f, "AMD Opteron™ 4200 Series Processor")
            }
            ProcessorFamily::AMDFXSeriesProcessor => write!(f, "AMD FX™ Series Processor"),
            ProcessorFamily::MIPSFamily => write!(f, "MIPS Family"),
            ProcessorFamily::MIPSR4000 => write!(f, "MIPS R4000"),
            ProcessorFamily::MIPSR4200 => write!(f, "MIPS R4200"),
            ProcessorFamily::MIPSR4400 => write!(f, "MIPS R4400"),
            ProcessorFamily::MIPSR4600 => write!(f, "MIPS R4600"),
            ProcessorFamily::MIPSR10000 => write!(f, "MIPS R10000"),
            ProcessorFamily::AMDCSeriesProcessor => write!(f, "AMD C-Series Processor"),
            ProcessorFamily::AMDESeriesProcessor => write!(f, "AMD E-Series Processor"),
            ProcessorFamily::AMDASeriesProcessor => write!(f, "AMD A-Series Processor"),
            ProcessorFamily::AMDGSeriesProcessor => write!(f, "AMD G-Series Processor"),
            ProcessorFamily::AMDZSeriesProcessor => write!(f, "AMD Z-Series Processor"),
            ProcessorFamily::AMDRSeriesProcessor => write!(f, "AMD R-Series Processor"),
            ProcessorFamily::AMDOpteron4300SeriesProcessor => {
                write!(f, "AMD Opteron™ 4300 Series Processor")
            }
            ProcessorFamily::AMDOpteron6300SeriesProcessor => {
                write!(f, "AMD Opteron™ 6300 Series Processor")
            }
            ProcessorFamily::AMDOpteron3300SeriesProcessor => {
                write!(f, "AMD Opteron™ 3300 Series Processor")
            }
            ProcessorFamily::AMDFireProSeriesProcessor => {
                write!(f, "AMD FirePro™ Series Processor")
            }
            ProcessorFamily::SPARCFamily => write!(f, "SPARC Family"),
            ProcessorFamily::SuperSPARC => write!(f, "SuperSPARC"),
            ProcessorFamily::MicroSPARCII => write!(f, "microSPARC II"),
            ProcessorFamily::MicroSPARCIIep => write!(f, "microSPARC IIep"),
            ProcessorFamily::UltraSPARC => write!(f, "UltraSPARC"),
            ProcessorFamily::UltraSPARCII => write!(f, "UltraSPARC II"),
            ProcessorFamily::UltraSPARCIii => write!(f, "UltraSPARC Iii"),
            ProcessorFamily::UltraSPARCIII => write!(f, "UltraSPARC III"),
            ProcessorFamily::UltraSPARCIIIi => write!(f, "UltraSPARC IIIi"),
            ProcessorFamily::Motorola68040Family => write!(f, "68040 Family"),
            ProcessorFamily::Motorola68xxx => write!(f, "68xxx"),
            ProcessorFamily::Motorola68000 => write!(f, "68000"),
            ProcessorFamily::Motorola68010 => write!(f, "68010"),
            ProcessorFamily::Motorola68020 => write!(f, "68020"),
            ProcessorFamily::Motorola68030 => write!(f, "68030"),
            ProcessorFamily::AMDAthlonX4QuadCoreProcessorFamily => {
                write!(f, "AMD Athlon(TM) X4 Quad-Core Processor Family")
            }
            ProcessorFamily::AMDOpteronX1000SeriesProcessor => {
                write!(f, "AMD Opteron(TM) X1000 Series Processor")
            }
            ProcessorFamily::AMDOpteronX2000SeriesAPU => {
                write!(f, "AMD Opteron(TM) X2000 Series APU")
            }
            ProcessorFamily::AMDOpteronASeriesProcessor => {
                write!(f, "AMD Opteron(TM) A-Series Processor")
            }
            ProcessorFamily::AMDOpteronX3000SeriesAPU => {
                write!(f, "AMD Opteron(TM) X3000 Series APU")
            }
            ProcessorFamily::AMDZenProcessorFamily => write!(f, "AMD Zen Processor Family"),
            ProcessorFamily::HobbitFamily => write!(f, "Hobbit Family"),
            ProcessorFamily::CrusoeTM5000Family => write!(f, "Crusoe™ TM5000 Family"),
            ProcessorFamily::CrusoeTM3000Family => write!(f, "Crusoe™ TM3000 Family"),
            ProcessorFamily::EfficeonTM8000Family => write!(f, "Efficeon™ TM8000 Family"),
            ProcessorFamily::Weitek => write!(f, "Weitek"),
            ProcessorFamily::AvailableForAssignment => write!(f, "Available for assignment"),
            ProcessorFamily::ItaniumProcessor => write!(f, "Itanium™ processor"),
            ProcessorFamily::AMDAthlon64ProcessorFamily => {
                write!(f, "AMD Athlon™ 64 Processor Family")
            }
            ProcessorFamily::AMDOpteronProcessorFamily => {
                write!(f, "AMD Opteron™ Processor Family")
            }
            ProcessorFamily::AMDSempronProcessorFamily => {
                write!(f, "AMD Sempron™ Processor Family")
            }
            ProcessorFamily::AMDTurion64MobileTechnology => {
                write!(f, "AMD Turion™ 64 Mobile Technology")
            }
            ProcessorFamily::DualCoreAMDOpteronProcessorFamily => {
                write!(f, "Dual-Core AMD Opteron™ Processor Family")
            }
            ProcessorFamily::AMDAthlon64X2DualCoreProcessorFamily => {
                write!(f, "AMD Athlon™ 64 X2 Dual-Core Processor Family")
            }
            ProcessorFamily::AMDTurion64X2MobileTechnology => {
                write!(f, "AMD Turion™ 64 X2 Mobile Technology")
            }
            ProcessorFamily::QuadCoreAMDOpteronProcessorFamily => {
                write!(f, "Quad-Core AMD Opteron™ Processor Family")
            }
            ProcessorFamily::ThirdGenerationAMDOpteronProcessorFamily => {
                write!(f, "Third-Generation AMD Opteron™ Processor Family")
            }
            ProcessorFamily::AMDPhenomFXQuadCoreProcessorFamily => {
                write!(f, "AMD Phenom™ FX Quad-Core Processor Family")
            }
            ProcessorFamily::AMDPhenomX4QuadCoreProcessorFamily => {
                write!(f, "AMD Phenom™ X4 Quad-Core Processor Family")
            }
            ProcessorFamily::AMDPhenomX2DualCoreProcessorFamily => {
                write!(f, "AMD Phenom™ X2 Dual-Core Processor Family")
            }
            ProcessorFamily::AMDAthlonX2DualCoreProcessorFamily => {
                write!(f, "AMD Athlon™ X2 Dual-Core Processor Family")
            }
            ProcessorFamily::PARISCFamily => write!(f, "PA-RISC Family"),
            ProcessorFamily::PARISC8500 => write!(f, "PA-RISC 8500"),
            ProcessorFamily::PARISC8000 => write!(f, "PA-RISC 8000"),
            ProcessorFamily::PARISC7300LC => write!(f, "PA-RISC 7300LC"),
            ProcessorFamily::PARISC7200 => write!(f, "PA-RISC 7200"),
            ProcessorFamily::PARISC7100LC => write!(f, "PA-RISC 7100LC"),
            ProcessorFamily::PARISC7100 => write!(f, "PA-RISC 7100"),
            ProcessorFamily::V30Family => write!(f, "V30 Family"),
            ProcessorFamily::QuadCoreIntelXeonProcessor3200Series => {
                write!(f, "Quad-Core Intel® Xeon® processor 3200 Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor3000Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 3000 Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor5300Series => {
                write!(f, "Quad-Core Intel® Xeon® processor 5300 Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor5100Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 5100 Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor5000Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 5000 Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessorLV => {
                write!(f, "Dual-Core Intel® Xeon® processor LV")
            }
            ProcessorFamily::DualCoreIntelXeonProcessorULV => {
                write!(f, "Dual-Core Intel® Xeon® processor ULV")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor7100Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 7100 Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor5400Series => {
                write!(f, "Quad-Core Intel® Xeon® processor 5400 Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor => {
                write!(f, "Quad-Core Intel® Xeon® processor")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor5200Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 5200 Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor7200Series => {
                write!(f, "Dual-Core Intel® Xeon® processor 7200 Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor7300Series => {
                write!(f, "Quad-Core Intel® Xeon® processor 7300 Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor7400Series => {
                write!(f, "Quad-Core Intel® Xeon® processor 7400 Series")
            }
            ProcessorFamily::MultiCoreIntelXeonProcessor7400Series => {
                write!(f, "Multi-Core Intel® Xeon® processor 7400 Series")
            }
            ProcessorFamily::PentiumIIIXeonProcessor => write!(f, "Pentium® III Xeon™ processor"),
            ProcessorFamily::PentiumIIIProcessorWithIntelSpeedStepTechnology => {
                write!(f, "Pentium® III Processor with Intel® SpeedStep™ Technology")
            }
            ProcessorFamily::Pentium4Processor => write!(f, "Pentium® 4 Processor"),
            ProcessorFamily::IntelXeonProcessor => write!(f, "Intel® Xeon® processor"),
            ProcessorFamily::AS400Family => write!(f, "AS400 Family"),
            ProcessorFamily::IntelXeonProcessorMP => write!(f, "Intel® Xeon™ processor MP"),
            ProcessorFamily::AMDAthlonXPProcessorFamily => {
                write!(f, "AMD Athlon™ XP Processor Family")
            }
            ProcessorFamily::AMDAthlonMPProcessorFamily => {
                write!(f, "AMD Athlon™ MP Processor Family")
            }
            ProcessorFamily::IntelItanium2Processor => write!(f, "Intel® Itanium® 2 processor"),
            ProcessorFamily::IntelPentiumMProcessor => write!(f, "Intel® Pentium® M processor"),
            ProcessorFamily::IntelCeleronDProcessor => write!(f, "Intel® Celeron® D processor"),
            ProcessorFamily::IntelPentiumDProcessor => write!(f, "Intel® Pentium® D processor"),
            ProcessorFamily::IntelPentiumProcessorExtremeEdition => {
                write!(f, "Intel® Pentium® Processor Extreme Edition")
            }
            ProcessorFamily::IntelCoreSoloProcessor => write!(f, "Intel® Core™ Solo Processor"),
            ProcessorFamily::Ambiguous => write!(f, "Ambiguous"),
            ProcessorFamily::IntelCore2DuoProcessor => write!(f, "Intel® Core™ 2 Duo Processor"),
            ProcessorFamily::IntelCore2SoloProcessor => write!(f, "Intel® Core™ 2 Solo processor"),
            ProcessorFamily::IntelCore2ExtremeProcessor => {
                write!(f, "Intel® Core™ 2 Extreme processor")
            }
            ProcessorFamily::IntelCore2QuadProcessor => write!(f, "Intel® Core™ 2 Quad processor"),
            ProcessorFamily::IntelCore2ExtremeMobileProcessor => {
                write!(f, "Intel® Core™ 2 Extreme mobile processor")
            }
            ProcessorFamily::IntelCore2DuoMobileProcessor => {
                write!(f, "Intel® Core™ 2 Duo mobile processor")
            }
            ProcessorFamily::IntelCore2SoloMobileProcessor => {
                write!(f, "Intel® Core™ 2 Solo mobile processor")
            }
            ProcessorFamily::IntelCoreI7Processor => write!(f, "Intel® Core™ i7 processor"),
            ProcessorFamily::DualCoreIntelCeleronProcessor => {
                write!(f, "Dual-Core Intel® Celeron® processor")
            }
            ProcessorFamily::IBM390Family => write!(f, "IBM390 Family"),
            ProcessorFamily::G4 => write!(f, "G4"),
            ProcessorFamily::G5 => write!(f, "G5"),
            ProcessorFamily::ESA390G6 => write!(f, "ESA/390 G6"),
            ProcessorFamily::ZArchitectureBase => write!(f, "z/Architecture base"),
            ProcessorFamily::IntelCoreI5Processor => write!(f, "Intel® Core™ i5 processor"),
            ProcessorFamily::IntelCoreI3Processor => write!(f, "Intel® Core™ i3 processor"),
            ProcessorFamily::IntelCoreI9Processor => write!(f, "Intel® Core™ i9 processor"),
            ProcessorFamily::VIAC7MProcessorFamily => write!(f, "VIA C7™-M Processor Family"),
            ProcessorFamily::VIAC7DProcessorFamily => write!(f, "VIA C7™-D Processor Family"),
            ProcessorFamily::VIAC7ProcessorFamily => write!(f, "VIA C7™ Processor Family"),
            ProcessorFamily::VIAEdenProcessorFamily => write!(f, "VIA Eden™ Processor Family"),
            ProcessorFamily::MultiCoreIntelXeonProcessor => {
                write!(f, "Multi-Core Intel® Xeon® processor")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor3xxxSeries => {
                write!(f, "Dual-Core Intel® Xeon® processor 3xxx Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor3xxxSeries => {
                write!(f, "Quad-Core Intel® Xeon® processor 3xxx Series")
            }
            ProcessorFamily::VIANanoProcessorFamily => write!(f, "VIA Nano™ Processor Family"),
            ProcessorFamily::DualCoreIntelXeonProcessor5xxxSeries => {
                write!(f, "Dual-Core Intel® Xeon® processor 5xxx Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor5xxxSeries => {
                write!(f, "Quad-Core Intel® Xeon® processor 5xxx Series")
            }
            ProcessorFamily::DualCoreIntelXeonProcessor7xxxSeries => {
                write!(f, "Dual-Core Intel® Xeon® processor 7xxx Series")
            }
            ProcessorFamily::QuadCoreIntelXeonProcessor7xxxSeries => {
                write!(f, "Quad-Core Intel® Xeon® processor 7xxx Series")
            }
            ProcessorFamily::MultiCoreIntelXeonProcessor7xxxSeries => {
                write!(f, "Multi-Core Intel® Xeon® processor 7xxx Series")
            }
            ProcessorFamily::MultiCoreIntelXeonProcessor3400Series => {
                write!(f, "Multi-Core Intel® Xeon® processor 3400 Series")
            }
            ProcessorFamily::AMDOpteron3000SeriesProcessor => {
                write!(f, "AMD Opteron™ 3000 Series Processor")
            }
            ProcessorFamily::AMDSempronIIProcessor => write!(f, "AMD Sempron™ II Processor"),
            ProcessorFamily::EmbeddedAMDOpteronQuadCoreProcessorFamily => {
                write!(f, "Embedded AMD Opteron™ Quad-Core Processor Family")
            }
            ProcessorFamily::AMDPhenomTripleCoreProcessorFamily => {
                write!(f, "AMD Phenom™ Triple-Core Processor Family")
            }
            ProcessorFamily::AMDTurionUltraDualCoreMobileProcessorFamily => {
                write!(f, "AMD Turion™ Ultra Dual-Core Mobile Processor Family")
            }
            ProcessorFamily::AMDTurionDualCoreMobileProcessorFamily => {
                write!(f, "AMD Turion™ Dual-Core Mobile Processor Family")
            }
            ProcessorFamily::AMDAthlonDualCoreProcessorFamily => {
                write!(f, "AMD Athlon™ Dual-Core Processor Family")
            }
            ProcessorFamily::AMDSempronSIProcessorFamily => {
                write!(f, "AMD Sempron™ SI Processor Family")
            }
            ProcessorFamily::AMDPhenomIIProcessorFamily => {
                write!(f, "AMD Phenom™ II Processor Family")
            }
            ProcessorFamily::AMDAthlonIIProcessorFamily => {
                write!(f, "AMD Athlon™ II Processor Family")
            }
            ProcessorFamily::SixCoreAMDOpteronProcessorFamily => {
                write!(f, "Six-Core AMD Opteron™ Processor Family")
            }
            ProcessorFamily::AMDSempronMProcessorFamily => {
                write!(f, "AMD Sempron™ M Processor Family")
            }
            ProcessorFamily::I860 => write!(f, "i860"),
            ProcessorFamily::I960 => write!(f, "i960"),
            ProcessorFamily::ARMv7 => write!(f, "ARMv7"),
            ProcessorFamily::ARMv8 => write!(f, "ARMv8"),
            ProcessorFamily::ARMv9 => write!(f, "ARMv9"),
            ProcessorFamily::SH3 => write!(f, "SH-3"),
            ProcessorFamily::SH4 => write!(f, "SH-4"),
            ProcessorFamily::ARM => write!(f, "ARM"),
            ProcessorFamily::StrongARM => write!(f, "StrongARM"),
            ProcessorFamily::Cyrix6x86 => write!(f, "6x86"),
            ProcessorFamily::MediaGX => write!(f, "MediaGX"),
            ProcessorFamily::MII => write!(f, "MII"),
            ProcessorFamily::WinChip => write!(f, "WinChip"),
            ProcessorFamily::DSP => write!(f, "DSP"),
            ProcessorFamily::VideoProcessor => write!(f, "Video Processor"),
            ProcessorFamily::RISCVRV32 => write!(f, "RISC-V RV32"),
            ProcessorFamily::RISCVRV64 => write!(f, "RISC-V RV64"),
            ProcessorFamily::RISCVRV128 => write!(f, "RISC-V RV128"),
            ProcessorFamily::ForFutureUse => write!(f, "For special use in the future"),
            ProcessorFamily::ProcessorFamily2 => {
                write!(f, "Processor Family 2 has the enumerated value")
            }
            ProcessorFamily::Available(n) => write!(f, "Available {n:#X}"),
            ProcessorFamily::NotUsed(n) => write!(f, "Not used. {n:X}h is the un-initialized value of Flash memory."),
            ProcessorFamily::OutOfSpec => write!(f, "OUT OF SPEC"),
        }
        }
    }
    pub struct DVoltage<'a>(pub &'a Voltage);
    impl fmt::Display for DVoltage<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            Voltage::Current(v) => write!(f, "Current voltage: {:.1} V", *v as f32 / 10.0),
            Voltage::Undefined(n) => write!(f, "Undefined {n:#b}"),
            Voltage::Legacy(legacy) => {
                let s55 = if legacy.contains(VoltageLegacy::VOLTAGE_CAPABILITY_5V0) {
                    "5.5V "
                } else {
                    ""
                };
                let s33 = if legacy.contains(VoltageLegacy::VOLTAGE_CAPABILITY_3V3) {
                    "3.3V "
                } else {
                    ""
                };
                let s29 = if legacy.contains(VoltageLegacy::VOLTAGE_CAPABILITY_2V9) {
                    "2.9V "
                } else {
                    ""
                };
                if s55.is_empty() && s33.is_empty() && s29.is_empty() {
                    write!(f, "Voltage capability unknown")
                } else {
                    write!(f, "Processor socket accept: {s55}{s33}{s29}")
                }
            }
        }
        }
    }
    pub struct DProcessorUpgrade<'a>(pub &'a ProcessorUpgrade);
    impl fmt::Display for DProcessorUpgrade<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ProcessorUpgrade::Other => write!(f, "Other"),
            ProcessorUpgrade::Unknown => write!(f, "Unknown"),
            ProcessorUpgrade::DaughterBoard => write!(f, "Daughter Board"),
            ProcessorUpgrade::ZIFSocket => write!(f, "ZIF Socket"),
            ProcessorUpgrade::ReplaceablePiggyBack => write!(f, "Replaceable Piggy Back"),
            ProcessorUpgrade::None => write!(f, "None"),
            ProcessorUpgrade::LIFSocket => write!(f, "LIF Socket"),
            ProcessorUpgrade::Slot1 => write!(f, "Slot 1"),
            ProcessorUpgrade::Slot2 => write!(f, "Slot 2"),
            ProcessorUpgrade::Socket370 => write!(f, "370-pin socket"),
            ProcessorUpgrade::SlotA => write!(f, "Slot A"),
            ProcessorUpgrade::SlotM => write!(f, "Slot M"),
            ProcessorUpgrade::Socket423 => write!(f, "Socket 423"),
            ProcessorUpgrade::SocketA => write!(f, "Socket A (Socket 462)"),
            ProcessorUpgrade::Socket478 => write!(f, "Socket 478"),
            ProcessorUpgrade::Socket754 => write!(f, "Socket 754"),
            ProcessorUpgrade::Socket940 => write!(f, "Socket 940"),
            ProcessorUpgrade::Socket939 => write!(f, "Socket 939"),
            ProcessorUpgrade::SocketmPGA604 => write!(f, "Socket mPGA604"),
            ProcessorUpgrade::SocketLGA771 => write!(f, "Socket LGA771"),
            ProcessorUpgrade::SocketLGA775 => write!(f, "Socket LGA775"),
            ProcessorUpgrade::SocketS1 => write!(f, "Socket S1"),
            ProcessorUpgrade::SocketAM2 => write!(f, "Socket AM2"),
            ProcessorUpgrade::SocketF => write!(f, "Socket F (1207)"),
            ProcessorUpgrade::SocketLGA1366 => write!(f, "Socket LGA1366"),
            ProcessorUpgrade::SocketG34 => write!(f, "Socket G34"),
            ProcessorUpgrade::SocketAM3 => write!(f, "Socket AM3"),
            ProcessorUpgrade::SocketC32 => write!(f, "Socket C32"),
            ProcessorUpgrade::SocketLGA1156 => write!(f, "Socket LGA1156"),
            ProcessorUpgrade::SocketLGA1567 => write!(f, "Socket LGA1567"),
            ProcessorUpgrade::SocketPGA988A => write!(f, "Socket PGA988A"),
            ProcessorUpgrade::SocketBGA1288 => write!(f, "Socket BGA1288"),
            ProcessorUpgrade::SocketrPGA988B => write!(f, "Socket rPGA988B"),
            ProcessorUpgrade::SocketBGA1023 => write!(f, "Socket BGA1023"),
            ProcessorUpgrade::SocketBGA1224 => write!(f, "Socket BGA1224"),
            ProcessorUpgrade::SocketLGA1155 => write!(f, "Socket LGA1155"),
            ProcessorUpgrade::SocketLGA1356 => write!(f, "Socket LGA1356"),
            ProcessorUpgrade::SocketLGA2011 => write!(f, "Socket LGA2011"),
            ProcessorUpgrade::SocketFS1 => write!(f, "Socket FS1"),
            ProcessorUpgrade::SocketFS2 => write!(f, "Socket FS2"),
            ProcessorUpgrade::SocketFM1 => write!(f, "Socket FM1"),
            ProcessorUpgrade::SocketFM2 => write!(f, "Socket FM2"),
            ProcessorUpgrade::SocketLGA2011Three => write!(f, "Socket LGA2011-3"),
            ProcessorUpgrade::SocketLGA1356Three => write!(f, "Socket LGA1356-3"),
            ProcessorUpgrade::SocketLGA1150 => write!(f, "Socket LGA1150"),
            ProcessorUpgrade::SocketBGA1168 => write!(f, "Socket BGA1168"),
            ProcessorUpgrade::SocketBGA1234 => write!(f, "Socket BGA1234"),
            ProcessorUpgrade::SocketBGA1364 => write!(f, "Socket BGA1364"),
            ProcessorUpgrade::SocketAM4 => write!(f, "Socket AM4"),
            ProcessorUpgrade::SocketLGA1151 => write!(f, "Socket LGA1151"),
            ProcessorUpgrade::SocketBGA1356 => write!(f, "Socket BGA1356"),
            ProcessorUpgrade::SocketBGA1440 => write!(f, "Socket BGA1440"),
            ProcessorUpgrade::SocketBGA1515 => write!(f, "Socket BGA1515"),
            ProcessorUpgrade::SocketLGA3647 => write!(f, "Socket LGA3647-1"),
            ProcessorUpgrade::SocketSP3 => write!(f, "Socket SP3"),
            ProcessorUpgrade::SocketSP3r2 => write!(f, "Socket SP3r2"),
            ProcessorUpgrade::SocketLGA2066 => write!(f, "Socket LGA2066"),
            ProcessorUpgrade::SocketBGA1392 => write!(f, "Socket BGA1392"),
            ProcessorUpgrade::SocketBGA1510 => write!(f, "Socket BGA1510"),
            ProcessorUpgrade::SocketBGA1528 => write!(f, "Socket BGA1528"),
            ProcessorUpgrade::SocketLGA4189 => write!(f, "Socket LGA4189"),
            ProcessorUpgrade::SocketLGA1200 => write!(f, "Socket LGA1200"),
            ProcessorUpgrade::Undefined(n) => write!(f, "Undefined {n}"),
        }
        }
    }
}
pub mod cache {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::cache::*;
    pub fn CacheLevel_u16(word: u16) -> CacheLevel {
        match word {
            0 => CacheLevel::L1,
            1 => CacheLevel::L2,
            2 => CacheLevel::L3,
            3 => CacheLevel::L4,
            4 => CacheLevel::L5,
            5 => CacheLevel::L6,
            6 => CacheLevel::L7,
            7 => CacheLevel::L8,
            _ => unreachable!(),
        }
    }
    pub fn CacheLocation_u16(word: u16) -> CacheLocation {
        match word {
            0 => CacheLocation::Internal,
            1 => CacheLocation::External,
            2 => CacheLocation::Reserved,
            3 => CacheLocation::Unknown,
            _ => unreachable!(),
        }
    }
    pub fn CacheOperationalMode_u16(word: u16) -> CacheOperationalMode {
        match word {
            0 => CacheOperationalMode::WriteThrough,
            1 => CacheOperationalMode::WriteBack,
            2 => CacheOperationalMode::ValuesWithMemoryAddress,
            3 => CacheOperationalMode::Unknown,
            _ => unreachable!(),
        }
    }
    pub fn CacheErrorCorrectionType_u8(byte: u8) -> CacheErrorCorrectionType {
        match byte {
            0x01 => CacheErrorCorrectionType::Other,
            0x02 => CacheErrorCorrectionType::Unknown,
            0x03 => CacheErrorCorrectionType::None,
            0x04 => CacheErrorCorrectionType::Parity,
            0x05 => CacheErrorCorrectionType::SingleBitEcc,
            0x06 => CacheErrorCorrectionType::MultiBitEcc,
            t => CacheErrorCorrectionType::Undefined(t),
        }
    }
    pub fn SystemCacheType_u8(byte: u8) -> SystemCacheType {
        match byte {
            0x01 => SystemCacheType::Other,
            0x02 => SystemCacheType::Unknown,
            0x03 => SystemCacheType::Instruction,
            0x04 => SystemCacheType::Data,
            0x05 => SystemCacheType::Unified,
            t => SystemCacheType::Undefined(t),
        }
    }
    pub fn CacheAssociativity_u8(byte: u8) -> CacheAssociativity {
        match byte {
            0x01 => CacheAssociativity::Other,
            0x02 => CacheAssociativity::Unknown,
            0x03 => CacheAssociativity::DirectMapped,
            0x04 => CacheAssociativity::TwowaySetAssociative,
            0x05 => CacheAssociativity::FourWaySetAssociative,
            0x06 => CacheAssociativity::FullyAssociative,
            0x07 => CacheAssociativity::EightWaySetAssociative,
            0x08 => CacheAssociativity::SixteenWaySetAssociative,
            0x09 => CacheAssociativity::TwelveWaySetAssociative,
            0x0A => CacheAssociativity::TwentyFourWaySetAssociative,
            0x0B => CacheAssociativity::ThirtyTwoWaySetAssociative,
            0x0C => CacheAssociativity::FourtyEightWaySetAssociative,
            0x0D => CacheAssociativity::SixtyFourWaySetAssociative,
            0x0E => CacheAssociativity::TwentyWaySetAssociative,
            t => CacheAssociativity::Undefined(t),
        }
    }
    pub struct DCacheLevel<'a>(pub &'a CacheLevel);
    impl fmt::Display for DCacheLevel<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            CacheLevel::L1 => write!(f, "L1"),
            CacheLevel::L2 => write!(f, "L2"),
            CacheLevel::L3 => write!(f, "L3"),
            CacheLevel::L4 => write!(f, "L4"),
            CacheLevel::L5 => write!(f, "L5"),
            CacheLevel::L6 => write!(f, "L6"),
            CacheLevel::L7 => write!(f, "L7"),
            CacheLevel::L8 => write!(f, "L8"),
        }
        }
    }
    pub struct DCacheLocation<'a>(pub &'a CacheLocation);
    impl fmt::Display for DCacheLocation<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            CacheLocation::Internal => write!(f, "Internal"),
            CacheLocation::External => write!(f, "External"),
            CacheLocation::Reserved => write!(f, "Reserved"),
            CacheLocation::Unknown => write!(f, "Unknown"),
        }
        }
    }
    pub struct DCacheOperationalMode<'a>(pub &'a CacheOperationalMode);
    impl fmt::Display for DCacheOperationalMode<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            CacheOperationalMode::WriteThrough => write!(f, "Write Through"),
            CacheOperationalMode::WriteBack => write!(f, "Write Back"),
            CacheOperationalMode::ValuesWithMemoryAddress => write!(f, "Values with Memory Address"),
            CacheOperationalMode::Unknown => write!(f, "Unknown"),
        }
        }
    }
    pub struct DCacheErrorCorrectionType<'a>(pub &'a CacheErrorCorrectionType);
    impl fmt::Display for DCacheErrorCorrectionType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            CacheErrorCorrectionType::Other => write!(f, "Other"),
            CacheErrorCorrectionType::Unknown => write!(f, "Unknown"),
            CacheErrorCorrectionType::None => write!(f, "None"),
            CacheErrorCorrectionType::Parity => write!(f, "Parity"),
            CacheErrorCorrectionType::SingleBitEcc => write!(f, "Single-bit ECC"),
            CacheErrorCorrectionType::MultiBitEcc => write!(f, "Multi-bit ECC"),
            CacheErrorCorrectionType::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
    pub struct DSystemCacheType<'a>(pub &'a SystemCacheType);
    impl fmt::Display for DSystemCacheType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SystemCacheType::Other => write!(f, "Other"),
            SystemCacheType::Unknown => write!(f, "Unknown"),
            SystemCacheType::Instruction => write!(f, "Instruction"),
            SystemCacheType::Data => write!(f, "Data"),
            SystemCacheType::Unified => write!(f, "Unified"),
            SystemCacheType::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
    pub struct DCacheAssociativity<'a>(pub &'a CacheAssociativity);
    impl fmt::Display for DCacheAssociativity<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            CacheAssociativity::Other => write!(f, "Other"),
            CacheAssociativity::Unknown => write!(f, "Unknown"),
            CacheAssociativity::DirectMapped => write!(f, "Direct Mapped"),
            CacheAssociativity::TwowaySetAssociative => write!(f, "2-way Set-Associative"),
            CacheAssociativity::FourWaySetAssociative => write!(f, "4-way Set-Associative"),
            CacheAssociativity::FullyAssociative => write!(f, "Fully Associative"),
            CacheAssociativity::EightWaySetAssociative => write!(f, "8-way Set-Associative"),
            CacheAssociativity::SixteenWaySetAssociative => write!(f, "16-way Set-Associative"),
            CacheAssociativity::TwelveWaySetAssociative => write!(f, "12-way Set-Associative"),
            CacheAssociativity::TwentyFourWaySetAssociative => write!(f, "24-way Set-Associative"),
            CacheAssociativity::ThirtyTwoWaySetAssociative => write!(f, "32-way Set-Associative"),
            CacheAssociativity::FourtyEightWaySetAssociative => write!(f, "48-way Set-Associative"),
            CacheAssociativity::SixtyFourWaySetAssociative => write!(f, "64-way Set-Associative"),
            CacheAssociativity::TwentyWaySetAssociative => write!(f, "20-way Set-Associative"),
            CacheAssociativity::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
}
pub mod port_connector {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::port_connector::*;
    pub fn ConnectorType_u8(byte: u8) -> ConnectorType {
        match byte {
            0x00 => ConnectorType::None,
            0x01 => ConnectorType::Centronics,
            0x02 => ConnectorType::MiniCentronics,
            0x03 => ConnectorType::Proprietary,
            0x04 => ConnectorType::Db25PinMale,
            0x05 => ConnectorType::Db25PinFemale,
            0x06 => ConnectorType::Db15PinMale,
            0x07 => ConnectorType::Db15PinFemale,
            0x08 => ConnectorType::Db9PinMale,
            0x09 => ConnectorType::Db9PinFemale,
            0x0A => ConnectorType::Rj11,
            0x0B => ConnectorType::Rj45,
            0x0C => ConnectorType::MiniScsi,
            0x0D => ConnectorType::MiniDin,
            0x0E => ConnectorType::MicroDin,
            0x0F => ConnectorType::Ps2,
            0x10 => ConnectorType::Infrared,
            0x11 => ConnectorType::HpHil,
            0x12 => ConnectorType::AccessBus,
            0x13 => ConnectorType::SsaScsi,
            0x14 => ConnectorType::CircularDin8Male,
            0x15 => ConnectorType::CircularDin8Female,
            0x16 => ConnectorType::OnBoardIde,
            0x17 => ConnectorType::OnBoardFloppy,
            0x18 => ConnectorType::DualInline9,
            0x19 => ConnectorType::DualInline25,
            0x1A => ConnectorType::DualInline50,
            0x1B => ConnectorType::DualInline68,
            0x1C => ConnectorType::OnBoardSoundInputFromCdRom,
            0x1D => ConnectorType::MiniCentronicsType14,
            0x1E => ConnectorType::MiniCentronicsType26,
            0x1F => ConnectorType::MiniJack,
            0x20 => ConnectorType::Bnc,
            0x21 => ConnectorType::Ieee1394,
            0x22 => ConnectorType::SasSataPlugReceptacle,
            0x23 => ConnectorType::UsbTypeCReceptacle,
            0xA0 => ConnectorType::Pc98,
            0xA1 => ConnectorType::Pc98Hireso,
            0xA2 => ConnectorType::PcH98,
            0xA3 => ConnectorType::Pc98Note,
            0xA4 => ConnectorType::Pc98Full,
            0xFF => ConnectorType::Other,
            v => ConnectorType::Undefined(v),
        }
    }
    pub fn PortType_u8(byte: u8) -> PortType {
        match byte {
            0x00 => PortType::None,
            0x01 => PortType::ParallelPortXtAtCompatible,
            0x02 => PortType::ParallelPortPs2,
            0x03 => PortType::ParallelPortEcp,
            0x04 => PortType::ParallelPortEpp,
            0x05 => PortType::ParallelPortEcpEpp,
            0x06 => PortType::SerialPortXtAtCompatible,
            0x07 => PortType::SerialPort16450Compatible,
            0x08 => PortType::SerialPort16550Compatible,
            0x09 => PortType::SerialPort16550ACompatible,
            0x0A => PortType::ScsiPort,
            0x0B => PortType::MidiPort,
            0x0C => PortType::JoyStickPort,
            0x0D => PortType::KeyboardPort,
            0x0E => PortType::MousePort,
            0x0F => PortType::SsaScsi,
            0x10 => PortType::Usb,
            0x11 => PortType::FireWire,
            0x12 => PortType::PcmciaType1,
            0x13 => PortType::PcmciaType2,
            0x14 => PortType::PcmciaType3,
            0x15 => PortType::Cardbus,
            0x16 => PortType::AccessBusPort,
            0x17 => PortType::Scsi2,
            0x18 => PortType::ScsiWide,
            0x19 => PortType::Pc98,
            0x1A => PortType::Pc98Hireso,
            0x1B => PortType::PcH98,
            0x1C => PortType::VideoPort,
            0x1D => PortType::AudioPort,
            0x1E => PortType::ModemPort,
            0x1F => PortType::NetworkPort,
            0x20 => PortType::Sata,
            0x21 => PortType::Sas,
            0x22 => PortType::MultiFunctionDisplayPort,
            0x23 => PortType::Thunderbolt,
            0xA0 => PortType::Intel8251Compatible,
            0xA1 => PortType::Intel8251FifoCompatible,
            0xFF => PortType::Other,
            v => PortType::Undefined(v),
        }
    }
    pub struct DConnectorType<'a>(pub &'a ConnectorType);
    impl fmt::Display for DConnectorType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ConnectorType::None => write!(f, "None"),
            ConnectorType::Centronics => write!(f, "Centronics"),
            ConnectorType::MiniCentronics => write!(f, "Mini Centronics"),
            ConnectorType::Proprietary => write!(f, "Proprietary"),
            ConnectorType::Db25PinMale => write!(f, "DB-25 pin male"),
            ConnectorType::Db25PinFemale => write!(f, "DB-25 pin female"),
            ConnectorType::Db15PinMale => write!(f, "DB-15 pin male"),
            ConnectorType::Db15PinFemale => write!(f, "DB-15 pin female"),
            ConnectorType::Db9PinMale => write!(f, "DB-9 pin male"),
            ConnectorType::Db9PinFemale => write!(f, "DB-9 pin female"),
            ConnectorType::Rj11 => write!(f, "RJ-11"),
            ConnectorType::Rj45 => write!(f, "RJ-45"),
            ConnectorType::MiniScsi => write!(f, "50-pin MiniSCSI"),
            ConnectorType::MiniDin => write!(f, "Mini-DIN"),
            ConnectorType::MicroDin => write!(f, "Micro-DIN"),
            ConnectorType::Ps2 => write!(f, "PS/2"),
            ConnectorType::Infrared => write!(f, "Infrared"),
            ConnectorType::HpHil => write!(f, "HP-HIL"),
            ConnectorType::AccessBus => write!(f, "Access Bus (USB)"),
            ConnectorType::SsaScsi => write!(f, "SSA SCSI"),
            ConnectorType::CircularDin8Male => write!(f, "Circular DIN-8 male"),
            ConnectorType::CircularDin8Female => write!(f, "Circular DIN-8 female"),
            ConnectorType::OnBoardIde => write!(f, "On Board IDE"),
            ConnectorType::OnBoardFloppy => write!(f, "On Board Floppy"),
            ConnectorType::DualInline9 => write!(f, "9-pin Dual Inline (pin 10 cut)"),
            ConnectorType::DualInline25 => write!(f, "25-pin Dual Inline (pin 26 cut)"),
            ConnectorType::DualInline50 => write!(f, "50-pin Dual Inline"),
            ConnectorType::DualInline68 => write!(f, "68-pin Dual Inline"),
            ConnectorType::OnBoardSoundInputFromCdRom => write!(f, "On Board Sound Input from CD-ROM"),
            ConnectorType::MiniCentronicsType14 => write!(f, "Mini-Centronics Type-14"),
            ConnectorType::MiniCentronicsType26 => write!(f, "Mini-Centronics Type-26"),
            ConnectorType::MiniJack => write!(f, "Mini-jack (headphones)"),
            ConnectorType::Bnc => write!(f, "BNC"),
            ConnectorType::Ieee1394 => write!(f, "1394"),
            ConnectorType::SasSataPlugReceptacle => write!(f, "SAS/SATA Plug Receptacle"),
            ConnectorType::UsbTypeCReceptacle => write!(f, "USB Type-C Receptacle"),
            ConnectorType::Pc98 => write!(f, "PC-98"),
            ConnectorType::Pc98Hireso => write!(f, "PC-98Hireso"),
            ConnectorType::PcH98 => write!(f, "PC-H98"),
            ConnectorType::Pc98Note => write!(f, "PC-98Note"),
            ConnectorType::Pc98Full => write!(f, "PC-98Full"),
            ConnectorType::Other => write!(f, "Other – Use Reference Designator Strings to supply information."),
            ConnectorType::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DPortType<'a>(pub &'a PortType);
    impl fmt::Display for DPortType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            PortType::None => write!(f, "None"),
            PortType::ParallelPortXtAtCompatible => write!(f, "Parallel Port XT/AT Compatible"),
            PortType::ParallelPortPs2 => write!(f, "Parallel Port PS/2"),
            PortType::ParallelPortEcp => write!(f, "Parallel Port ECP"),
            PortType::ParallelPortEpp => write!(f, "Parallel Port EPP"),
            PortType::ParallelPortEcpEpp => write!(f, "Parallel Port ECP/EPP"),
            PortType::SerialPortXtAtCompatible => write!(f, "Serial Port XT/AT Compatible"),
            PortType::SerialPort16450Compatible => write!(f, "Serial Port 16450 Compatible"),
            PortType::SerialPort16550Compatible => write!(f, "Serial Port 16550 Compatible"),
            PortType::SerialPort16550ACompatible => write!(f, "Serial Port 16550A Compatible"),
            PortType::ScsiPort => write!(f, "SCSI Port"),
            PortType::MidiPort => write!(f, "MIDI Port"),
            PortType::JoyStickPort => write!(f, "Joy Stick Port"),
            PortType::KeyboardPort => write!(f, "Keyboard Port"),
            PortType::MousePort => write!(f, "Mouse Port"),
            PortType::SsaScsi => write!(f, "SSA SCSI"),
            PortType::Usb => write!(f, "USB"),
            PortType::FireWire => write!(f, "FireWire (IEEE P1394)"),
            PortType::PcmciaType1 => write!(f, "PCMCIA Type I2"),
            PortType::PcmciaType2 => write!(f, "PCMCIA Type II"),
            PortType::PcmciaType3 => write!(f, "PCMCIA Type III"),
            PortType::Cardbus => write!(f, "Cardbus"),
            PortType::AccessBusPort => write!(f, "Access Bus Port"),
            PortType::Scsi2 => write!(f, "SCSI II"),
            PortType::ScsiWide => write!(f, "SCSI Wide"),
            PortType::Pc98 => write!(f, "PC-98"),
            PortType::Pc98Hireso => write!(f, "PC-98-Hireso"),
            PortType::PcH98 => write!(f, "PC-H98"),
            PortType::VideoPort => write!(f, "Video Port"),
            PortType::AudioPort => write!(f, "Audio Port"),
            PortType::ModemPort => write!(f, "Modem Port"),
            PortType::NetworkPort => write!(f, "Network Port"),
            PortType::Sata => write!(f, "SATA"),
            PortType::Sas => write!(f, "SAS"),
            PortType::MultiFunctionDisplayPort => write!(f, "MFDP (Multi-Function Display Port)"),
            PortType::Thunderbolt => write!(f, "Thunderbolt"),
            PortType::Intel8251Compatible => write!(f, "8251 Compatible"),
            PortType::Intel8251FifoCompatible => write!(f, "8251 FIFO Compatible"),
            PortType::Other => write!(f, "Other"),
            PortType::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
}
pub mod system_slots {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::system_slots::*;
    pub fn SlotType_u8(byte: u8) -> SlotType {
        match byte {
            0x01 => SlotType::Other,
            0x02 => SlotType::Unknown,
            0x03 => SlotType::Isa,
            0x04 => SlotType::Mca,
            0x05 => SlotType::Eisa,
            0x06 => SlotType::Pci,
            0x07 => SlotType::PcCard,
            0x08 => SlotType::VlVesa,
            0x09 => SlotType::Proprietary,
            0x0A => SlotType::ProcessorCardSlot,
            0x0B => SlotType::ProprietaryMemoryCardSlot,
            0x0C => SlotType::IoRiserCardSlot,
            0x0D => SlotType::Nubus,
            0x0E => SlotType::Pci66Mhz,
            0x0F => SlotType::Agp,
            0x10 => SlotType::Agp2x,
            0x11 => SlotType::Agp4x,
            0x12 => SlotType::PciX,
            0x13 => SlotType::Agp8x,
            0x14 => SlotType::M2Socket1DP,
            0x15 => SlotType::M2Socket1SD,
            0x16 => SlotType::M2Socket2,
            0x17 => SlotType::M2Socket3,
            0x18 => SlotType::MxmType1,
            0x19 => SlotType::MxmType2,
            0x1A => SlotType::MxmType3,
            0x1B => SlotType::MxmType3He,
            0x1C => SlotType::MxmType4,
            0x1D => SlotType::Mxm3TypeA,
            0x1E => SlotType::Mxm3TypeB,
            0x1F => SlotType::U2PciExpressGen2,
            0x20 => SlotType::U2PciExpressGen3,
            0x21 => SlotType::PciExpressMini52pin1,
            0x22 => SlotType::PciExpressMini52pin2,
            0x23 => SlotType::PciExpressMini76pin,
            0x24 => SlotType::U2PciExpressGen4,
            0x25 => SlotType::U2PciExpressGen5,
            0x26 => SlotType::OcpNic3Small,
            0x27 => SlotType::OcpNic3Large,
            0x28 => SlotType::OcpNicPriorTo3,
            0x30 => SlotType::CxlFlexbus1,
            0xA0 => SlotType::Pc98C20,
            0xA1 => SlotType::Pc98C24,
            0xA2 => SlotType::Pc98E,
            0xA3 => SlotType::Pc98LocalBus,
            0xA4 => SlotType::Pc98Card,
            0xA5 => SlotType::PciExpress,
            0xA6 => SlotType::PciExpressX1,
            0xA7 => SlotType::PciExpressX2,
            0xA8 => SlotType::PciExpressX4,
            0xA9 => SlotType::PciExpressX8,
            0xAA => SlotType::PciExpressX16,
            0xAB => SlotType::PciExpressGen2,
            0xAC => SlotType::PciExpressGen2x1,
            0xAD => SlotType::PciExpressGen2x2,
            0xAE => SlotType::PciExpressGen2x4,
            0xAF => SlotType::PciExpressGen2x8,
            0xB0 => SlotType::PciExpressGen2x16,
            0xB1 => SlotType::PciExpressGen3,
            0xB2 => SlotType::PciExpressGen3x1,
            0xB3 => SlotType::PciExpressGen3x2,
            0xB4 => SlotType::PciExpressGen3x4,
            0xB5 => SlotType::PciExpressGen3x8,
            0xB6 => SlotType::PciExpressGen3x16,
            0xB8 => SlotType::PciExpressGen4,
            0xB9 => SlotType::PciExpressGen4x1,
            0xBA => SlotType::PciExpressGen4x2,
            0xBB => SlotType::PciExpressGen4x4,
            0xBC => SlotType::PciExpressGen4x8,
            0xBD => SlotType::PciExpressGen4x16,
            0xBE => SlotType::PciExpressGen5,
            0xBF => SlotType::PciExpressGen5x1,
            0xC0 => SlotType::PciExpressGen5x2,
            0xC1 => SlotType::PciExpressGen5x4,
            0xC2 => SlotType::PciExpressGen5x8,
            0xC3 => SlotType::PciExpressGen5x16,
            0xC4 => SlotType::PciExpressGen6,
            0xC5 => SlotType::E1FormFactorSlot,
            0xC6 => SlotType::E3FormFactorSlot,
            v => SlotType::Undefined(v),
        }
    }
    pub fn SlotWidth_u8(byte: u8) -> SlotWidth {
        match byte {
            0x01 => SlotWidth::Other,
            0x02 => SlotWidth::Unknown,
            0x03 => SlotWidth::Byte,
            0x04 => SlotWidth::Word,
            0x05 => SlotWidth::Dword,
            0x06 => SlotWidth::Qword,
            0x07 => SlotWidth::Dqword,
            0x08 => SlotWidth::X1,
            0x09 => SlotWidth::X2,
            0x0A => SlotWidth::X4,
            0x0B => SlotWidth::X8,
            0x0C => SlotWidth::X12,
            0x0D => SlotWidth::X16,
            0x0E => SlotWidth::X32,
            v => SlotWidth::Undefined(v),
        }
    }
    pub fn CurrentUsage_u8(byte: u8) -> CurrentUsage {
        match byte {
            0x01 => CurrentUsage::Other,
            0x02 => CurrentUsage::Unknown,
            0x03 => CurrentUsage::Available,
            0x04 => CurrentUsage::InUse,
            0x05 => CurrentUsage::Unavailable,
            v => CurrentUsage::Undefined(v),
        }
    }
    pub fn SlotLength_u8(byte: u8) -> SlotLength {
        match byte {
            0x01 => SlotLength::Other,
            0x02 => SlotLength::Unknown,
            0x03 => SlotLength::ShortLength,
            0x04 => SlotLength::LongLength,
            0x05 => SlotLength::DriveFormFactor2_5,
            0x06 => SlotLength::DriveFormFactor3_5,
            v => SlotLength::Undefined(v),
        }
    }
    pub struct DSlotType<'a>(pub &'a SlotType);
    impl fmt::Display for DSlotType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let is_alt = f.alternate();
        match self.0 {
            SlotType::Other => write!(f, "Other"),
            SlotType::Unknown => write!(f, "Unknown"),
            SlotType::Isa => write!(f, "ISA"),
            SlotType::Mca => write!(f, "MCA"),
            SlotType::Eisa => write!(f, "EISA"),
            SlotType::Pci => write!(f, "PCI"),
            SlotType::PcCard => write!(f, "PC Card (PCMCIA)"),
            SlotType::VlVesa => write!(f, "VL-VESA"),
            SlotType::Proprietary => write!(f, "Proprietary"),
            SlotType::ProcessorCardSlot => write!(f, "Processor Card Slot"),
            SlotType::ProprietaryMemoryCardSlot => write!(f, "Proprietary Memory Card Slot"),
            SlotType::IoRiserCardSlot => write!(f, "I/O Riser Card Slot"),
            SlotType::Nubus => write!(f, "NuBus"),
            SlotType::Pci66Mhz => write!(f, "PCI – 66MHz Capable"),
            SlotType::Agp => write!(f, "AGP"),
            SlotType::Agp2x => write!(f, "AGP 2X"),
            SlotType::Agp4x => write!(f, "AGP 4X"),
            SlotType::PciX => write!(f, "PCI-X"),
            SlotType::Agp8x => write!(f, "AGP 8X"),
            SlotType::M2Socket1DP => write!(f, "M.2 Socket 1-DP (Mechanical Key A)"),
            SlotType::M2Socket1SD => write!(f, "M.2 Socket 1-SD (Mechanical Key E)"),
            SlotType::M2Socket2 => write!(f, "M.2 Socket 2 (Mechanical Key B)"),
            SlotType::M2Socket3 => write!(f, "M.2 Socket 3 (Mechanical Key M)"),
            SlotType::MxmType1 => write!(f, "MXM Type I"),
            SlotType::MxmType2 => write!(f, "MXM Type II"),
            SlotType::MxmType3 => write!(f, "MXM Type III (standard connector)"),
            SlotType::MxmType3He => write!(f, "MXM Type III (HE connector)"),
            SlotType::MxmType4 => write!(f, "MXM Type IV"),
            SlotType::Mxm3TypeA => write!(f, "MXM 3.0 Type A"),
            SlotType::Mxm3TypeB => write!(f, "MXM 3.0 Type B"),
            SlotType::U2PciExpressGen2 => write!(f, "PCI Express Gen 2 SFF-8639 (U.2)"),
            SlotType::U2PciExpressGen3 => write!(f, "PCI Express Gen 3 SFF-8639 (U.2)"),
            SlotType::PciExpressMini52pin1 => {
                if is_alt {
                    write!(
                        f,
                        "PCI Express Mini 52-pin (CEM spec. 2.0) with bottom-side keep-outs. \
                        Use Slot Length field value 03h (short length) for \"half-Mini card\" -only \
                        support, 04h (long length) for \"full-Mini card\" or dual support."
                    )
                } else {
                    write!(f, "PCI Express Mini 52-pin with bottom-side keep-outs")
                }
            }
            SlotType::PciExpressMini52pin2 => {
                if is_alt {
                    write!(
                        f,
                        "PCI Express Mini 52-pin (CEM spec. 2.0) without bottom-side keep-outs. \
                        Use Slot Length field value 03h (short length) for \"half-Mini card\" -only \
                        support, 04h (long length) for \"full-Mini card\" or dual support."
                    )
                } else {
                    write!(f, "PCI Express Mini 52-pin without bottom-side keep-outs")
                }
            }
            SlotType::PciExpressMini76pin => {
                if is_alt {
                    write!(
                        f,
                        "PCI Express Mini 76-pin (CEM spec. 2.0) Corresponds to Display-Mini card."
                    )
                } else {
                    write!(f, "PCI Express Mini 76-pin")
                }
            }
            SlotType::U2PciExpressGen4 => write!(f, "PCI Express Gen 4 SFF-8639 (U.2)"),
            SlotType::U2PciExpressGen5 => write!(f, "PCI Express Gen 5 SFF-8639 (U.2)"),
            SlotType::OcpNic3Small => write!(f, "OCP NIC 3.0 Small Form Factor (SFF)"),
            SlotType::OcpNic3Large => write!(f, "OCP NIC 3.0 Large Form Factor (LFF)"),
            SlotType::OcpNicPriorTo3 => write!(f, "OCP NIC Prior to 3.0"),
            SlotType::CxlFlexbus1 => write!(f, "CXL Flexbus 1.0 (deprecated)"),
            SlotType::Pc98C20 => write!(f, "PC-98/C20"),
            SlotType::Pc98C24 => write!(f, "PC-98/C24"),
            SlotType::Pc98E => write!(f, "PC-98/E"),
            SlotType::Pc98LocalBus => write!(f, "PC-98/Local Bus"),
            SlotType::Pc98Card => write!(f, "PC-98/Card"),
            SlotType::PciExpress => write!(f, "PCI Express"),
            SlotType::PciExpressX1 => write!(f, "PCI Express x1"),
            SlotType::PciExpressX2 => write!(f, "PCI Express x2"),
            SlotType::PciExpressX4 => write!(f, "PCI Express x4"),
            SlotType::PciExpressX8 => write!(f, "PCI Express x8"),
            SlotType::PciExpressX16 => write!(f, "PCI Express x16"),
            SlotType::PciExpressGen2 => write!(f, "PCI Express Gen 2"),
            SlotType::PciExpressGen2x1 => write!(f, "PCI Express Gen 2 x1"),
            SlotType::PciExpressGen2x2 => write!(f, "PCI Express Gen 2 x2"),
            SlotType::PciExpressGen2x4 => write!(f, "PCI Express Gen 2 x4"),
            SlotType::PciExpressGen2x8 => write!(f, "PCI Express Gen 2 x8"),
            SlotType::PciExpressGen2x16 => write!(f, "PCI Express Gen 2 x16"),
            SlotType::PciExpressGen3 => write!(f, "PCI Express Gen 3"),
            SlotType::PciExpressGen3x1 => write!(f, "PCI Express Gen 3 x1"),
            SlotType::PciExpressGen3x2 => write!(f, "PCI Express Gen 3 x2"),
            SlotType::PciExpressGen3x4 => write!(f, "PCI Express Gen 3 x4"),
            SlotType::PciExpressGen3x8 => write!(f, "PCI Express Gen 3 x8"),
            SlotType::PciExpressGen3x16 => write!(f, "PCI Express Gen 3 x16"),
            SlotType::PciExpressGen4 => write!(f, "PCI Express Gen 4"),
            SlotType::PciExpressGen4x1 => write!(f, "PCI Express Gen 4 x1"),
            SlotType::PciExpressGen4x2 => write!(f, "PCI Express Gen 4 x2"),
            SlotType::PciExpressGen4x4 => write!(f, "PCI Express Gen 4 x4"),
            SlotType::PciExpressGen4x8 => write!(f, "PCI Express Gen 4 x8"),
            SlotType::PciExpressGen4x16 => write!(f, "PCI Express Gen 4 x16"),
            SlotType::PciExpressGen5 => write!(f, "PCI Express Gen 5"),
            SlotType::PciExpressGen5x1 => write!(f, "PCI Express Gen 5 x1"),
            SlotType::PciExpressGen5x2 => write!(f, "PCI Express Gen 5 x2"),
            SlotType::PciExpressGen5x4 => write!(f, "PCI Express Gen 5 x4"),
            SlotType::PciExpressGen5x8 => write!(f, "PCI Express Gen 5 x8"),
            SlotType::PciExpressGen5x16 => write!(f, "PCI Express Gen 5 x16"),
            SlotType::PciExpressGen6 => write!(f, "PCI Express Gen 6 and Beyond"),
            SlotType::E1FormFactorSlot => {
                if is_alt {
                    write!(
                        f,
                        "Enterprise and Datacenter 1U E1 Form Factor Slot (EDSFF E1.S, E1.L). \
                        See specifications SFF-TA-1006 and SFF-TA-1007 for more details on values \
                        for slot length and pitch."
                    )
                } else {
                    write!(f, "EDSFF E1")
                }
            }
            SlotType::E3FormFactorSlot => {
                if is_alt {
                    write!(
                        f,
                        "Enterprise and Datacenter 3\" E3 Form Factor Slot (EDSFF E3.S, \
                        E3.L). See specification SFF-TA-1008 for details on values for slot length \
                        and pitch."
                    )
                } else {
                    write!(f, "EDSFF E3")
                }
            }
            SlotType::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DSlotWidth<'a>(pub &'a SlotWidth);
    impl fmt::Display for DSlotWidth<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SlotWidth::Other => write!(f, "Other"),
            SlotWidth::Unknown => write!(f, "Unknown"),
            SlotWidth::Byte => write!(f, "8 bit"),
            SlotWidth::Word => write!(f, "16 bit"),
            SlotWidth::Dword => write!(f, "32 bit"),
            SlotWidth::Qword => write!(f, "64 bit"),
            SlotWidth::Dqword => write!(f, "128 bit"),
            SlotWidth::X1 => write!(f, "1x or x1"),
            SlotWidth::X2 => write!(f, "2x or x2"),
            SlotWidth::X4 => write!(f, "4x or x4"),
            SlotWidth::X8 => write!(f, "8x or x8"),
            SlotWidth::X12 => write!(f, "12x or x12"),
            SlotWidth::X16 => write!(f, "16x or x16"),
            SlotWidth::X32 => write!(f, "32x or x32"),
            SlotWidth::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DCurrentUsage<'a>(pub &'a CurrentUsage);
    impl fmt::Display for DCurrentUsage<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let is_alt = f.alternate();
        match self.0 {
            CurrentUsage::Other => write!(f, "Other"),
            CurrentUsage::Unknown => write!(f, "Unknown"),
            CurrentUsage::Available => write!(f, "Available"),
            CurrentUsage::InUse => write!(f, "In use"),
            CurrentUsage::Unavailable => {
                if is_alt {
                    write!(f, "Unavailable (e.g., connected to a processor that is not installed)")
                } else {
                    write!(f, "Unavailable")
                }
            }
            CurrentUsage::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DSlotLength<'a>(pub &'a SlotLength);
    impl fmt::Display for DSlotLength<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SlotLength::Other => write!(f, "Other"),
            SlotLength::Unknown => write!(f, "Unknown"),
            SlotLength::ShortLength => write!(f, "Short Length"),
            SlotLength::LongLength => write!(f, "Long Length"),
            SlotLength::DriveFormFactor2_5 => write!(f, "2.5\" drive form factor"),
            SlotLength::DriveFormFactor3_5 => write!(f, "3.5\" drive form factor"),
            SlotLength::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
}
pub mod system_event_log {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::system_event_log::*;
    pub fn LogHeaderFormat_u8(byte: u8) -> LogHeaderFormat {
        match byte {
            0x00 => LogHeaderFormat::NoHeader,
            0x01 => LogHeaderFormat::LogHeaderType1,
            v @ 0x80..=0xFF => LogHeaderFormat::OemSpecific(v),
            v => LogHeaderFormat::Available(v),
        }
    }
    pub struct DAccessMethod<'a>(pub &'a AccessMethod);
    impl fmt::Display for DAccessMethod<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match (f.alternate(), self.0) {
            (false, AccessMethod::IndexedIoOne8bitIndexOne8bitData { .. }) => {
                write!(f, "Indexed I/O, one 8-bit index port, one 8-bit data port")
            }
            (false, AccessMethod::IndexedIoTwo8bitIndexOne8bitData { .. }) => {
                write!(f, "Indexed I/O, two 8-bit index ports, one 8-bit data port")
            }
            (false, AccessMethod::IndexedIoOne16bitIndexOne8bitData { .. }) => {
                write!(f, "Indexed I/O, one 16-bit index port, one 8-bit data port")
            }
            (false, AccessMethod::MemoryMappedPhysicaAddress { .. }) => write!(f, "Memory-mapped physical 32-bit address"),
            (false, AccessMethod::GeneralPurposeNonVolatileData { .. }) => {
                write!(f, "General-purpose non-volatile data functions")
            }
            (false, AccessMethod::OemSpecific { method, .. }) => write!(f, "OEM-specific: {method}"),
            (false, AccessMethod::Available { method, .. }) => write!(f, "Available: {method}"),
            (true, AccessMethod::IndexedIoOne8bitIndexOne8bitData { index, data }) => write!(
                f,
                "Indexed I/O, one 8-bit index port, one 8-bit data port: Index 0x{index:02X}, Data 0x{data:02X}"
            ),
            (true, AccessMethod::IndexedIoTwo8bitIndexOne8bitData { index, data }) => write!(
                f,
                "Indexed I/O, two 8-bit index ports, one 8-bit data port: Index {index:X?}, Data 0x{data:02X}"
            ),
            (true, AccessMethod::IndexedIoOne16bitIndexOne8bitData { index, data }) => write!(
                f,
                "Indexed I/O, one 16-bit index port, one 8-bit data port: Index 0x{index:04X}, Data 0x{data:02X}"
            ),
            (true, AccessMethod::MemoryMappedPhysicaAddress { physical_address }) => {
                write!(f, "Memory-mapped physical 32-bit address: 0x{physical_address:08X}")
            }
            (true, AccessMethod::GeneralPurposeNonVolatileData { gpnv_handle }) => write!(
                f,
                "General-Purpose NonVolatile Data functions, handle 0x{gpnv_handle:04X}"
            ),
            (true, AccessMethod::OemSpecific { method, address }) => {
                write!(f, "BIOS Vendor/OEM-specific: Method {method}, Address 0x{address:08X}")
            }
            (true, AccessMethod::Available { method, address }) => {
                write!(f, "Available: Method {method}, Address 0x{address:08X}")
            }
        }
        }
    }
    pub struct DLogHeaderFormat<'a>(pub &'a LogHeaderFormat);
    impl fmt::Display for DLogHeaderFormat<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match (f.alternate(), self.0) {
            (_, LogHeaderFormat::NoHeader) => write!(f, "No Header"),
            (true, LogHeaderFormat::LogHeaderType1) => write!(f, "Type 1 log header"),
            (false, LogHeaderFormat::LogHeaderType1) => write!(f, "Type 1"),
            (true, LogHeaderFormat::OemSpecific(v)) => write!(f, "BIOS vendor or OEM-specific format: {v}"),
            (false, LogHeaderFormat::OemSpecific(_)) => write!(f, "OEM-specific"),
            (_, LogHeaderFormat::Available(v)) => write!(f, "Available: {v}"),
        }
        }
    }
}
pub mod physical_memory_array {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::physical_memory_array::*;
    pub fn MemoryArrayLocation_u8(_type: u8) -> MemoryArrayLocation {
        match _type {
            1 => MemoryArrayLocation::Other,
            2 => MemoryArrayLocation::Unknown,
            3 => MemoryArrayLocation::SystemBoardOrMotherboard,
            4 => MemoryArrayLocation::IsaAddOnCard,
            5 => MemoryArrayLocation::EisaAddOnCard,
            6 => MemoryArrayLocation::PciAddOnCard,
            7 => MemoryArrayLocation::McaAddOnCard,
            8 => MemoryArrayLocation::PcmciaAddOnCard,
            9 => MemoryArrayLocation::ProprietaryAddOnCard,
            10 => MemoryArrayLocation::NuBus,
            0xA0 => MemoryArrayLocation::Pc98c20AddOnCard,
            0xA1 => MemoryArrayLocation::Pc98c24AddOnCard,
            0xA2 => MemoryArrayLocation::Pc98eAddOnCard,
            0xA3 => MemoryArrayLocation::Pc98LocalBusAddOnCard,
            0xA4 => MemoryArrayLocation::CxlAddOnCard,
            t => MemoryArrayLocation::Undefined(t),
        }
    }
    pub fn MemoryArrayUse_u8(_type: u8) -> MemoryArrayUse {
        match _type {
            1 => MemoryArrayUse::Other,
            2 => MemoryArrayUse::Unknown,
            3 => MemoryArrayUse::SystemMemory,
            4 => MemoryArrayUse::VideoMemory,
            5 => MemoryArrayUse::FlashMemory,
            6 => MemoryArrayUse::NonVolatileRam,
            7 => MemoryArrayUse::CacheMemory,
            t => MemoryArrayUse::Undefined(t),
        }
    }
    pub fn MemoryArrayErrorCorrectionTypes_u8(_type: u8) -> MemoryArrayErrorCorrectionTypes {
        match _type {
            1 => MemoryArrayErrorCorrectionTypes::Other,
            2 => MemoryArrayErrorCorrectionTypes::Unknown,
            3 => MemoryArrayErrorCorrectionTypes::None,
            4 => MemoryArrayErrorCorrectionTypes::Parity,
            5 => MemoryArrayErrorCorrectionTypes::SingleBitEcc,
            6 => MemoryArrayErrorCorrectionTypes::MultiBitEcc,
            7 => MemoryArrayErrorCorrectionTypes::CRC,
            t => MemoryArrayErrorCorrectionTypes::Undefined(t),
        }
    }
    pub struct DMemoryArrayLocation<'a>(pub &'a MemoryArrayLocation);
    impl fmt::Display for DMemoryArrayLocation<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            MemoryArrayLocation::Other => write!(f, "Other"),
            MemoryArrayLocation::Unknown => write!(f, "Unknown"),
            MemoryArrayLocation::SystemBoardOrMotherboard => write!(f, "System board or motherboard"),
            MemoryArrayLocation::IsaAddOnCard => write!(f, "ISA add-on card"),
            MemoryArrayLocation::EisaAddOnCard => write!(f, "EISA add-on card"),
            MemoryArrayLocation::PciAddOnCard => write!(f, "PCI add-on card"),
            MemoryArrayLocation::McaAddOnCard => write!(f, "MCA add-on card"),
            MemoryArrayLocation::PcmciaAddOnCard => write!(f, "PCMCIA add-on card"),
            MemoryArrayLocation::ProprietaryAddOnCard => write!(f, "Proprietary add-on card"),
            MemoryArrayLocation::NuBus => write!(f, "NuBus"),
            MemoryArrayLocation::Pc98c20AddOnCard => write!(f, "PC-98/C20 add-on card"),
            MemoryArrayLocation::Pc98c24AddOnCard => write!(f, "PC-98/C24 add-on card"),
            MemoryArrayLocation::Pc98eAddOnCard => write!(f, "PC-98/E add-on card"),
            MemoryArrayLocation::Pc98LocalBusAddOnCard => write!(f, "PC-98/Local bus add-on card"),
            MemoryArrayLocation::CxlAddOnCard => write!(f, "CXL add-on card"),
            MemoryArrayLocation::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
    pub struct DMemoryArrayUse<'a>(pub &'a MemoryArrayUse);
    impl fmt::Display for DMemoryArrayUse<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            MemoryArrayUse::Other => write!(f, "Other"),
            MemoryArrayUse::Unknown => write!(f, "Unknown"),
            MemoryArrayUse::SystemMemory => write!(f, "System memory"),
            MemoryArrayUse::VideoMemory => write!(f, "Video memory"),
            MemoryArrayUse::FlashMemory => write!(f, "Flash memory"),
            MemoryArrayUse::NonVolatileRam => write!(f, "Non-volatile RAM"),
            MemoryArrayUse::CacheMemory => write!(f, "Cache memory"),
            MemoryArrayUse::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
    pub struct DMemoryArrayErrorCorrectionTypes<'a>(pub &'a MemoryArrayErrorCorrectionTypes);
    impl fmt::Display for DMemoryArrayErrorCorrectionTypes<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            MemoryArrayErrorCorrectionTypes::Other => write!(f, "Other"),
            MemoryArrayErrorCorrectionTypes::Unknown => write!(f, "Unknown"),
            MemoryArrayErrorCorrectionTypes::None => write!(f, "None"),
            MemoryArrayErrorCorrectionTypes::Parity => write!(f, "Parity"),
            MemoryArrayErrorCorrectionTypes::SingleBitEcc => write!(f, "Single-bit ECC"),
            MemoryArrayErrorCorrectionTypes::MultiBitEcc => write!(f, "Multi-bit ECC"),
            MemoryArrayErrorCorrectionTypes::CRC => write!(f, "CRC"),
            MemoryArrayErrorCorrectionTypes::Undefined(t) => write!(f, "Undefined: {t}"),
        }
        }
    }
}
pub mod memory_device {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::memory_device::*;
    pub fn ErrorGranularity_u8(_type: u8) -> ErrorGranularity {
        match _type {
            1 => ErrorGranularity::Other,
            2 => ErrorGranularity::Unknown,
            3 => ErrorGranularity::DeviceLevel,
            4 => ErrorGranularity::MemoryLevel,
            t => ErrorGranularity::Undefined(t),
        }
    }
    pub fn ErrorOperation_u8(_type: u8) -> ErrorOperation {
        match _type {
            1 => ErrorOperation::Other,
            2 => ErrorOperation::Unknown,
            3 => ErrorOperation::Read,
            4 => ErrorOperation::Write,
            5 => ErrorOperation::PartialWrite,
            t => ErrorOperation::Undefined(t),
        }
    }
    pub fn ErrorType_u8(_type: u8) -> ErrorType {
        match _type {
            1 => ErrorType::Other,
            2 => ErrorType::Unknown,
            3 => ErrorType::Ok,
            4 => ErrorType::BadRead,
            5 => ErrorType::Parity,
            6 => ErrorType::SingleBit,
            7 => ErrorType::DoubleBit,
            8 => ErrorType::MultiBit,
            9 => ErrorType::Nibble,
            10 => ErrorType::Checksum,
            11 => ErrorType::Crc,
            12 => ErrorType::CorrectedSingleBit,
            13 => ErrorType::Corrected,
            14 => ErrorType::Uncorrectable,
            t => ErrorType::Undefined(t),
        }
    }
    pub fn FormFactor_u8(_type: u8) -> FormFactor {
        match _type {
            1 => FormFactor::Other,
            2 => FormFactor::Unknown,
            3 => FormFactor::Simm,
            4 => FormFactor::Sip,
            5 => FormFactor::Chip,
            6 => FormFactor::Dip,
            7 => FormFactor::Zip,
            8 => FormFactor::ProprietaryCard,
            9 => FormFactor::Dimm,
            10 => FormFactor::Tsop,
            11 => FormFactor::RowOfChips,
            12 => FormFactor::Rimm,
            13 => FormFactor::SoDimm,
            14 => FormFactor::Srimm,
            15 => FormFactor::FbDimm,
            t => FormFactor::Undefined(t),
        }
    }
    pub fn MemoryTechnology_u8(_type: u8) -> MemoryTechnology {
        match _type {
            1 => MemoryTechnology::Other,
            2 => MemoryTechnology::Unknown,
            3 => MemoryTechnology::Dram,
            4 => MemoryTechnology::NvDimmN,
            5 => MemoryTechnology::NvDimmF,
            6 => MemoryTechnology::NvDimmP,
            7 => MemoryTechnology::IntelOptane,
            t => MemoryTechnology::Undefined(t),
        }
    }
    pub fn Type_u8(_type: u8) -> Type {
        match _type {
            1 => Type::Other,
            2 => Type::Unknown,
            3 => Type::Dram,
            4 => Type::Edram,
            5 => Type::Vram,
            6 => Type::Sram,
            7 => Type::Ram,
            8 => Type::Rom,
            9 => Type::Flash,
            10 => Type::Eeprom,
            11 => Type::Feprom,
            12 => Type::Eprom,
            13 => Type::Cdram,
            14 => Type::ThreeDram,
            15 => Type::Sdram,
            16 => Type::Sgram,
            17 => Type::Rdram,
            18 => Type::Ddr,
            19 => Type::Ddr2,
            20 => Type::Ddr2FbDimm,
            21 => Type::Reserved,
            22 => Type::Reserved,
            23 => Type::Reserved,
            24 => Type::Ddr3,
            25 => Type::Fbd2,
            26 => Type::Ddr4,
            27 => Type::LpDdr,
            28 => Type::LpDdr2,
            29 => Type::LpDdr3,
            30 => Type::LpDdr4,
            31 => Type::LogicalNonVolatileDevice,
            32 => Type::Hbm,
            33 => Type::Hbm2,
            34 => Type::Ddr5,
            35 => Type::LpDdr5,
            t => Type::Undefined(t),
        }
    }
}
pub mod memory_error_32 {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::memory_error_32::*;
    pub fn ErrorType_u8(byte: u8) -> ErrorType {
        match byte {
            0x01 => ErrorType::Other,
            0x02 => ErrorType::Unknown,
            0x03 => ErrorType::Ok,
            0x04 => ErrorType::BadRead,
            0x05 => ErrorType::ParityError,
            0x06 => ErrorType::SingleBitError,
            0x07 => ErrorType::DoubleBitError,
            0x08 => ErrorType::MultiBitError,
            0x09 => ErrorType::NibbleError,
            0x0a => ErrorType::ChecksumError,
            0x0b => ErrorType::CrcError,
            0x0c => ErrorType::CorrectedSingleBitError,
            0x0d => ErrorType::CorrectedError,
            0x0e => ErrorType::UncorrectableError,
            v => ErrorType::Undefined(v),
        }
    }
    pub fn ErrorGranularity_u8(byte: u8) -> ErrorGranularity {
        match byte {
            0x01 => ErrorGranularity::Other,
            0x02 => ErrorGranularity::Unknown,
            0x03 => ErrorGranularity::DeviceLevel,
            0x04 => ErrorGranularity::MemoryPartitionLevel,
            v => ErrorGranularity::Undefined(v),
        }
    }
    pub fn ErrorOperation_u8(byte: u8) -> ErrorOperation {
        match byte {
            0x01 => ErrorOperation::Other,
            0x02 => ErrorOperation::Unknown,
            0x03 => ErrorOperation::Read,
            0x04 => ErrorOperation::Write,
            0x05 => ErrorOperation::PartialWrite,
            v => ErrorOperation::Undefined(v),
        }
    }
    pub struct DErrorType<'a>(pub &'a ErrorType);
    impl fmt::Display for DErrorType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ErrorType::Other => write!(f, "Other"),
            ErrorType::Unknown => write!(f, "Unknown"),
            ErrorType::Ok => write!(f, "OK"),
            ErrorType::BadRead => write!(f, "Bad read"),
            ErrorType::ParityError => write!(f, "Parity error"),
            ErrorType::SingleBitError => write!(f, "Single-bit error"),
            ErrorType::DoubleBitError => write!(f, "Double-bit error"),
            ErrorType::MultiBitError => write!(f, "Multi-bit error"),
            ErrorType::NibbleError => write!(f, "Nibble error"),
            ErrorType::ChecksumError => write!(f, "Checksum error"),
            ErrorType::CrcError => write!(f, "CRC error"),
            ErrorType::CorrectedSingleBitError => write!(f, "Corrected single-bit error"),
            ErrorType::CorrectedError => write!(f, "Corrected error"),
            ErrorType::UncorrectableError => write!(f, "Uncorrectable error"),
            ErrorType::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DErrorGranularity<'a>(pub &'a ErrorGranularity);
    impl fmt::Display for DErrorGranularity<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ErrorGranularity::Other => write!(f, "Other"),
            ErrorGranularity::Unknown => write!(f, "Unknown"),
            ErrorGranularity::DeviceLevel => write!(f, "Device level"),
            ErrorGranularity::MemoryPartitionLevel => write!(f, "Memory partition level"),
            ErrorGranularity::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DErrorOperation<'a>(pub &'a ErrorOperation);
    impl fmt::Display for DErrorOperation<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ErrorOperation::Other => write!(f, "Other"),
            ErrorOperation::Unknown => write!(f, "Unknown"),
            ErrorOperation::Read => write!(f, "Read"),
            ErrorOperation::Write => write!(f, "Write"),
            ErrorOperation::PartialWrite => write!(f, "Partial write"),
            ErrorOperation::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
}
pub mod built_in_pointing_device {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::built_in_pointing_device::*;
    pub fn Type_u8(byte: u8) -> Type {
        match byte {
            0x01 => Type::Other,
            0x02 => Type::Unknown,
            0x03 => Type::Mouse,
            0x04 => Type::TrackBall,
            0x05 => Type::TrackPoint,
            0x06 => Type::GlidePoint,
            0x07 => Type::TouchPad,
            0x08 => Type::TouchScreen,
            0x09 => Type::OpticalSensor,
            v => Type::Undefined(v),
        }
    }
    pub fn Interface_u8(byte: u8) -> Interface {
        match byte {
            0x01 => Interface::Other,
            0x02 => Interface::Unknown,
            0x03 => Interface::Serial,
            0x04 => Interface::Ps2,
            0x05 => Interface::Infrared,
            0x06 => Interface::HpHil,
            0x07 => Interface::BusMouse,
            0x08 => Interface::Adb,
            0xA0 => Interface::BusMouseDb9,
            0xA1 => Interface::BusMouseMicroDin,
            0xA2 => Interface::Usb,
            v => Interface::Undefined(v),
        }
    }
    pub struct DType<'a>(pub &'a Type);
    impl fmt::Display for DType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            Type::Other => write!(f, "Other"),
            Type::Unknown => write!(f, "Unknown"),
            Type::Mouse => write!(f, "Mouse"),
            Type::TrackBall => write!(f, "Track Ball"),
            Type::TrackPoint => write!(f, "Track Point"),
            Type::GlidePoint => write!(f, "Glide Point"),
            Type::TouchPad => write!(f, "Touch Pad"),
            Type::TouchScreen => write!(f, "Touch Screen"),
            Type::OpticalSensor => write!(f, "Optical Sensor"),
            Type::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
    pub struct DInterface<'a>(pub &'a Interface);
    impl fmt::Display for DInterface<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            Interface::Other => write!(f, "Other"),
            Interface::Unknown => write!(f, "Unknown"),
            Interface::Serial => write!(f, "Serial"),
            Interface::Ps2 => write!(f, "PS/2"),
            Interface::Infrared => write!(f, "Infrared"),
            Interface::HpHil => write!(f, "HP-HIL"),
            Interface::BusMouse => write!(f, "Bus mouse"),
            Interface::Adb => write!(f, "ADB (Apple Desktop Bus)"),
            Interface::BusMouseDb9 => write!(f, "Bus mouse DB-9"),
            Interface::BusMouseMicroDin => write!(f, "Bus mouse micro-DIN"),
            Interface::Usb => write!(f, "USB"),
            Interface::Undefined(v) => write!(f, "Undefined: {v}"),
        }
        }
    }
}
pub mod portable_battery {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::portable_battery::*;
    pub struct DManufactureDate<'a>(pub &'a ManufactureDate<'a>);
    impl fmt::Display for DManufactureDate<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            ManufactureDate::None => Ok(()),
            ManufactureDate::Basic(s) => write!(f, "{s}"),
            ManufactureDate::SmartBatteryDataSpecification { year, month, date } =>
            {
                write!(f, "{year:04}-{month:02}-{date:02}")
            }
        }
        }
    }
    pub struct DSerialNumber<'a>(pub &'a SerialNumber<'a>);
    impl fmt::Display for DSerialNumber<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SerialNumber::None => Ok(()),
            SerialNumber::Basic(s) => write!(f, "{s}"),
            SerialNumber::SmartBatteryDataSpecification(word) => write!(f, "{word:#04X}"),
        }
        }
    }
    pub struct DDeviceChemistry<'a>(pub &'a DeviceChemistry<'a>);
    impl fmt::Display for DDeviceChemistry<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            DeviceChemistry::Other => write!(f, "Other"),
            DeviceChemistry::Unknown => write!(f, "Unknown"),
            DeviceChemistry::LeadAcid => write!(f, "Lead Acid"),
            DeviceChemistry::NickelCadmium => write!(f, "Nickel Cadmium"),
            DeviceChemistry::NickelMetalHydride => write!(f, "Nickel metal hydride"),
            DeviceChemistry::LithiumIon => write!(f, "Lithium-ion"),
            DeviceChemistry::ZincAir => write!(f, "Zinc air"),
            DeviceChemistry::LithiumPolymer => write!(f, "Lithium Polymer"),
            DeviceChemistry::Undefined(v) => write!(f, "Undefined: {v}"),
            DeviceChemistry::SmartBatteryDataSpecification(s) => write!(f, "{s}"),
        }
        }
    }
}
pub mod log_record_format {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::system_event_log::log_record_format::*;
    pub fn EventLogType_u8(byte: u8) -> EventLogType {
        match byte {
            0x00 | 0x0F => EventLogType::Reserved(byte),
            0x01 => EventLogType::SingleBitEccMemoryError,
            0x02 => EventLogType::MultiBitEccMemoryError,
            0x03 => EventLogType::ParityMemoryError,
            0x04 => EventLogType::BusTimeOut,
            0x05 => EventLogType::IoChannelCheck,
            0x06 => EventLogType::SoftwareNmi,
            0x07 => EventLogType::PostMemoryResize,
            0x08 => EventLogType::PostError,
            0x09 => EventLogType::PciParityError,
            0x0A => EventLogType::PciSystemError,
            0x0B => EventLogType::CpuFailure,
            0x0C => EventLogType::EisaFailSafeTimerTimeOut,
            0x0D => EventLogType::CorrectableMemoryLogDisabled,
            0x0E => EventLogType::LoggingDisabledForSpecificEventType,
            0x10 => EventLogType::SystemLimitExceeded,
            0x11 => EventLogType::AsynchronousHardwareTimerExpired,
            0x12 => EventLogType::SystemConfigurationInformation,
            0x13 => EventLogType::HardDiskInformation,
            0x14 => EventLogType::SystemReconfigured,
            0x15 => EventLogType::UncorrectableCpuComplexError,
            0x16 => EventLogType::LogAreaReset,
            0x17 => EventLogType::SystemBoot,
            v @ 0x18..=0x7F => EventLogType::Unused(v),
            v @ 0x80..=0xFE => EventLogType::Available(v),
            0xFF => EventLogType::EndOfLog,
        }
    }
    pub fn VariableDataFormatType_u8(byte: u8) -> VariableDataFormatType {
        match byte {
            0x00 => VariableDataFormatType::None,
            0x01 => VariableDataFormatType::Handle { handle: 0 },
            0x02 => VariableDataFormatType::MultipleEvent { counter: 0 },
            0x03 => VariableDataFormatType::MultipleEventHandle { handle: 0, counter: 0 },
            0x04 => VariableDataFormatType::PostResults((0).into()),
            0x05 => VariableDataFormatType::SystemManagementType((0xFFFF).into()),
            0x06 => VariableDataFormatType::MultipleEventSystemManagementType {
                system_management_type: (0xFFFF).into(),
                counter: 0,
            },
            v @ 0x07..=0x7F => VariableDataFormatType::Unused(v),
            v @ 0x80..=0xFF => VariableDataFormatType::OemAssigned(v),
        }
    }
    pub fn SystemManagementType_u32(byte: u32) -> SystemManagementType {
        match byte {
            0x00000000 => SystemManagementType::OutOfRangeVoltagePlus2_5Num1,
            0x00000001 => SystemManagementType::OutOfRangeVoltagePlus2_5Num2,
            0x00000002 => SystemManagementType::OutOfRangeVoltagePlus3_3,
            0x00000003 => SystemManagementType::OutOfRangeVoltagePlus5,
            0x00000004 => SystemManagementType::OutOfRangeVoltageMinus5,
            0x00000005 => SystemManagementType::OutOfRangeVoltagePlus12,
            0x00000006 => SystemManagementType::OutOfRangeVoltageMinus12,
            v @ 0x00000007..=0x0000000F => SystemManagementType::OutOfRangeVoltageReserved(v as u8),
            0x00000010 => SystemManagementType::OutOfRangeTemperatureSystemBoard,
            0x00000011 => SystemManagementType::OutOfRangeTemperatureProcessor1,
            0x00000012 => SystemManagementType::OutOfRangeTemperatureProcessor2,
            0x00000013 => SystemManagementType::OutOfRangeTemperatureProcessor3,
            0x00000014 => SystemManagementType::OutOfRangeTemperatureProcessor4,
            v @ 0x00000015..=0x1F => SystemManagementType::OutOfRangeTemperatureReserved(v as u8),
            v @ 0x00000020..=0x27 => SystemManagementType::OutOfRangeFan((v & 0b111) as u8),
            0x00000030 => SystemManagementType::ChassisSecureSwitchActivated,
            v @ 0x00010000..=0x0001FFFF => SystemManagementType::OutOfRangeSystemManagementProbe(v as u16),
            v @ 0x80000000..=0xFFFFFFFF => SystemManagementType::OemAssigned(v),
            v => SystemManagementType::Reserved(v),
        }
    }
    pub struct DEventLogType<'a>(pub &'a EventLogType);
    impl fmt::Display for DEventLogType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match (f.alternate(), self.0) {
            (true, EventLogType::Reserved(v)) => write!(f, "Reserved: {v}"),
            (false, EventLogType::Reserved(_)) => write!(f, "Reserved"),
            (_, EventLogType::SingleBitEccMemoryError) => write!(f, "Single-bit ECC memory error"),
            (_, EventLogType::MultiBitEccMemoryError) => write!(f, "Multi-bit ECC memory error"),
            (_, EventLogType::ParityMemoryError) => write!(f, "Parity memory error"),
            (true, EventLogType::BusTimeOut) => write!(f, "Bus time-out"),
            (false, EventLogType::BusTimeOut) => write!(f, "Bus timeout"),
            (true, EventLogType::IoChannelCheck) => write!(f, "I/O Channel Check"),
            (false, EventLogType::IoChannelCheck) => write!(f, "I/O channel block"),
            (_, EventLogType::SoftwareNmi) => write!(f, "Software NMI"),
            (true, EventLogType::PostMemoryResize) => write!(f, "POST Memory Resize"),
            (false, EventLogType::PostMemoryResize) => write!(f, "POST memory resize"),
            (true, EventLogType::PostError) => write!(f, "POST Error"),
            (false, EventLogType::PostError) => write!(f, "POST error"),
            (true, EventLogType::PciParityError) => write!(f, "PCI Parity Error"),
            (false, EventLogType::PciParityError) => write!(f, "PCI parity error"),
            (true, EventLogType::PciSystemError) => write!(f, "PCI System Error"),
            (false, EventLogType::PciSystemError) => write!(f, "PCI system error"),
            (true, EventLogType::CpuFailure) => write!(f, "CPU Failure"),
            (false, EventLogType::CpuFailure) => write!(f, "CPU failure"),
            (true, EventLogType::EisaFailSafeTimerTimeOut) => write!(f, "EISA FailSafe Timer time-out"),
            (false, EventLogType::EisaFailSafeTimerTimeOut) => write!(f, "EISA failsafe timer timeout"),
            (_, EventLogType::CorrectableMemoryLogDisabled) => write!(f, "Correctable memory log disabled"),
            (true, EventLogType::LoggingDisabledForSpecificEventType) => {
                write!(f, "Logging disabled for a specific Event Type")
            }
            (false, EventLogType::LoggingDisabledForSpecificEventType) => write!(f, "Logging disabled"),
            (true, EventLogType::SystemLimitExceeded) => write!(f, "System Limit Exceeded"),
            (false, EventLogType::SystemLimitExceeded) => write!(f, "System limit exceeded"),
            (true, EventLogType::AsynchronousHardwareTimerExpired) => {
                write!(f, "Asynchronous hardware timer expired and issued a system reset")
            }
            (false, EventLogType::AsynchronousHardwareTimerExpired) => {
                write!(f, "Asynchronous hardware timer expired")
            }
            (_, EventLogType::SystemConfigurationInformation) => {
                write!(f, "System configuration information")
            }
            (true, EventLogType::HardDiskInformation) => write!(f, "Hard-disk information"),
            (false, EventLogType::HardDiskInformation) => write!(f, "Hard disk information"),
            (_, EventLogType::SystemReconfigured) => write!(f, "System reconfigured"),
            (_, EventLogType::UncorrectableCpuComplexError) => write!(f, "Uncorrectable CPU-complex error"),
            (true, EventLogType::LogAreaReset) => write!(f, "Log Area Reset/Cleared"),
            (false, EventLogType::LogAreaReset) => write!(f, "Log area reset/cleared"),
            (_, EventLogType::SystemBoot) => write!(f, "System boot"),
            (_, EventLogType::Unused(v)) => write!(f, "Unused: {v}"),
            (true, EventLogType::Available(v)) => write!(f, "Available for system- and OEM-specific assignments: {v}"),
            (false, EventLogType::Available(_)) => write!(f, "OEM-specific"),
            (_, EventLogType::EndOfLog) => write!(f, "End of log"),
        }
        }
    }
    pub struct DVariableDataFormatType<'a>(pub &'a VariableDataFormatType);
    impl fmt::Display for DVariableDataFormatType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match (f.alternate(), self.0) {
            (true, VariableDataFormatType::None) => write!(f, "No standard format data is available"),
            (false, VariableDataFormatType::None) => write!(f, "None"),
            (true, VariableDataFormatType::Handle { handle }) => {
                write!(f, "SMBIOS structure associated handle: {handle}")
            }
            (false, VariableDataFormatType::Handle { .. }) => write!(f, "Handle"),
            (true, VariableDataFormatType::MultipleEvent { counter }) => {
                write!(f, "Multiple-event counter value: {counter}")
            }
            (false, VariableDataFormatType::MultipleEvent { .. }) => write!(f, "Multiple-event"),
            (true, VariableDataFormatType::MultipleEventHandle { handle, counter }) => {
                write!(f, "Multiple-event: Handle 0x{handle:04X}, Count {counter}")
            }
            (false, VariableDataFormatType::MultipleEventHandle { .. }) => write!(f, "Multiple-event handle"),
            (true, VariableDataFormatType::PostResults(pr)) => write!(f, "POST result: {:#X}", dmidecode::bitfield::BitField::value(pr)),
            (false, VariableDataFormatType::PostResults(_)) => write!(f, "POST results bitmap"),
            (true, VariableDataFormatType::SystemManagementType(sm)) => write!(f, "System management: {sm}"),
            (false, VariableDataFormatType::SystemManagementType(_)) => write!(f, "System management"),
            (
                true,
                VariableDataFormatType::MultipleEventSystemManagementType {
                    system_management_type,
                    counter,
                },
            ) => write!(
                f,
                "Multiple-event system management: Type {system_management_type}, Count {counter}"
            ),
            (false, VariableDataFormatType::MultipleEventSystemManagementType { .. }) => {
                write!(f, "Multiple-event system management")
            }
            (_, VariableDataFormatType::Unused(v)) => write!(f, "Unused: {v}"),
            (true, VariableDataFormatType::OemAssigned(v)) => write!(f, "OEM assigned: {v}"),
            (false, VariableDataFormatType::OemAssigned(_)) => write!(f, "OEM-specific"),
        }
        }
    }
    pub struct DSystemManagementType<'a>(pub &'a SystemManagementType);
    impl fmt::Display for DSystemManagementType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            SystemManagementType::OutOfRangeVoltagePlus2_5Num1 => write!(f, "+2.5V Out of range, #1"),
            SystemManagementType::OutOfRangeVoltagePlus2_5Num2 => write!(f, "+2.5V Out of range, #2"),
            SystemManagementType::OutOfRangeVoltagePlus3_3 => write!(f, "+3.3V Out of range"),
            SystemManagementType::OutOfRangeVoltagePlus5 => write!(f, "+5V Out of range"),
            SystemManagementType::OutOfRangeVoltageMinus5 => write!(f, "-5V Out of range"),
            SystemManagementType::OutOfRangeVoltagePlus12 => write!(f, "+12V Out of range"),
            SystemManagementType::OutOfRangeVoltageMinus12 => write!(f, "-12V Out of range"),
            SystemManagementType::OutOfRangeVoltageReserved(v) => write!(f, "Out-of-range voltage reserved: {v}"),
            SystemManagementType::OutOfRangeTemperatureSystemBoard => {
                write!(f, "System board temperature out of range")
            }
            SystemManagementType::OutOfRangeTemperatureProcessor1 => {
                write!(f, "Processor #1 temperature out of range")
            }
            SystemManagementType::OutOfRangeTemperatureProcessor2 => {
                write!(f, "Processor #2 temperature out of range")
            }
            SystemManagementType::OutOfRangeTemperatureProcessor3 => {
                write!(f, "Processor #3 temperature out of range")
            }
            SystemManagementType::OutOfRangeTemperatureProcessor4 => {
                write!(f, "Processor #4 temperature out of range")
            }
            SystemManagementType::OutOfRangeTemperatureReserved(v) => {
                write!(f, "Out-of-range temperatures reserved: {v}")
            }
            SystemManagementType::OutOfRangeFan(v) => write!(f, "Fan {v} Out of range"),
            SystemManagementType::ChassisSecureSwitchActivated => write!(f, "Chassis secure switch activated"),
            SystemManagementType::OutOfRangeSystemManagementProbe(v) => write!(
                f,
                "A system-management probe or cooling device with handle 0x{v:04X} is out of range"
            ),
            SystemManagementType::OemAssigned(v) => write!(f, "OEM assigned: {v}"),
            SystemManagementType::Reserved(v) => write!(f, "Reserved: {v}"),
        }
        }
    }
}
pub mod root {
    #![allow(unused_imports)]
    use super::fmt;
    use dmidecode::*;
    use dmidecode::{InfoType, InvalidEntryPointError, MalformedStructureError};
    pub fn InfoType_u8(kind: u8) -> InfoType {
        match kind {
            0 => InfoType::Bios,
            1 => InfoType::System,
            2 => InfoType::BaseBoard,
            3 => InfoType::Enclosure,
            4 => InfoType::Processor,
            7 => InfoType::Cache,
            8 => InfoType::PortConnector,
            9 => InfoType::SystemSlots,
            11 => InfoType::OemStrings,
            12 => InfoType::SystemConfigurationOptions,
            13 => InfoType::BiosLanguage,
            14 => InfoType::GroupAssociations,
            15 => InfoType::SystemEventLog,
            16 => InfoType::PhysicalMemoryArray,
            17 => InfoType::MemoryDevice,
            18 => InfoType::MemoryError32,
            19 => InfoType::MemoryArrayMappedAddress,
            20 => InfoType::MemoryDeviceMappedAddress,
            21 => InfoType::BuiltInPointingDevice,
            22 => InfoType::PortableBattery,
            32 => InfoType::SystemBoot,
            127 => InfoType::End,
            t => InfoType::Oem(t),
        }
    }
    pub struct DInvalidEntryPointError<'a>(pub &'a InvalidEntryPointError);
    impl fmt::Display for DInvalidEntryPointError<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            InvalidEntryPointError::NotFound => write!(f, "Input did not contain a valid SMBIOS entry point"),
            InvalidEntryPointError::TooOldVersion(version) => {
                write!(f, "Input version number was below 2.0: {version}")
            }
            InvalidEntryPointError::BadSize(size) => {
                write!(f, "Input contained an invalid-sized SMBIOS entry: {size}")
            }
            InvalidEntryPointError::BadChecksum(checksum) => {
                write!(f, "SMBIOS entry point has an invalid checksum: {checksum}")
            }
        }
        }
    }
    pub struct DMalformedStructureError<'a>(pub &'a MalformedStructureError);
    impl fmt::Display for DMalformedStructureError<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            MalformedStructureError::BadSize(offset, length) => {
                write!(
                    f,
                    "Structure at offset {offset} with length {length} extends beyond SMBIOS"
                )
            }
            MalformedStructureError::UnterminatedStrings(offset) => {
                write!(f, "Structure at offset {offset} with unterminated strings")
            }
            MalformedStructureError::InvalidStringIndex(info_type, handle, index) => {
                write!(
                    f,
                    "Structure {info_type:?} with handle {handle} has invalid string index {index}"
                )
            }
            MalformedStructureError::InvalidSlice(cause) => {
                write!(f, "{cause}")
            }
            MalformedStructureError::InvalidFormattedSectionLength(info_type, handle, spec, length) => {
                write!(
                    f,
                    "Formatted section length of structure {info_type:?} with handle {handle} should be {spec}{length} bytes"
                )
            }
        }
        }
    }
    pub struct DInfoType<'a>(pub &'a InfoType);
    impl fmt::Display for DInfoType<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            InfoType::Bios => write!(f, "BIOS Information"),
            InfoType::System => write!(f, "System Information"),
            InfoType::BaseBoard => write!(f, "Baseboard (or Module) Information"),
            InfoType::Enclosure => write!(f, "System Enclosure or Chassis"),
            InfoType::Processor => write!(f, "Processor Information"),
            InfoType::Cache => write!(f, "Cache Information"),
            InfoType::PortConnector => write!(f, "Port Connector Information"),
            InfoType::SystemSlots => write!(f, "System Slots"),
            InfoType::OemStrings => write!(f, "OEM Strings"),
            InfoType::SystemConfigurationOptions => write!(f, "System Configuration Options"),
            InfoType::BiosLanguage => write!(f, "BIOS Language Information"),
            InfoType::GroupAssociations => write!(f, "Group Associations"),
            InfoType::SystemEventLog => write!(f, "System Event Log"),
            InfoType::PhysicalMemoryArray => write!(f, "Physical Memory Array"),
            InfoType::MemoryDevice => write!(f, "Memory Device"),
            InfoType::MemoryError32 => write!(f, "32-Bit Memory Error Information"),
            InfoType::MemoryArrayMappedAddress => write!(f, "Memory Array Mapped Address"),
            InfoType::MemoryDeviceMappedAddress => write!(f, "Memory Device Mapped Address"),
            InfoType::BuiltInPointingDevice => write!(f, "Built-in Pointing Device"),
            InfoType::PortableBattery => write!(f, "Portable Battery"),
            InfoType::SystemBoot => write!(f, "System Boot Information"),
            InfoType::End => write!(f, "End-of-Table"),
            InfoType::Oem(t) => write!(f, "OEM: {t}"),
        }
        }
    }
}
