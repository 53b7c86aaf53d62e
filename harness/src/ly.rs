//! Reference bit-field layouts (generated by tools/genlayouts.py, reviewed against DSP0134, frozen).
#![allow(non_snake_case)]
use dmidecode::bitfield::FlagType::{self, Reserved as R, Significant as S};
pub fn Characteristics() -> [FlagType<'static>; 64] {
    [
        S("Reserved", "Reserved"),
        S("Reserved", "Reserved"),
        S("Unknown", "Unknown"),
        S("BIOS characteristics not supported", "BIOS Characteristics are not supported"),
        S("ISA is supported", "ISA is supported"),
        S("MCA is supported", "MCA is supported"),
        S("EISA is supported", "EISA is supported"),
        S("PCI is supported", "PCI is supported"),
        S("PC card (PCMCIA) is supported", "PC card (PCMCIA) is supported"),
        S("PNP is supported", "Plug and Play is supported"),
        S("APM is supported", "APM is supported"),
        S("BIOS is upgradeable", "BIOS is upgradeable (Flash)"),
        S("BIOS shadowing is allowed", "BIOS shadowing is allowed"),
        S("VLB is supported", "VL-VESA is supported"),
        S("ESCD support is available", "ESCD support is available"),
        S("Boot from CD is supported", "Boot from CD is supported"),
        S("Selectable boot is supported", "Selectable boot is supported"),
        S("BIOS ROM is socketed", "BIOS ROM is socketed (e.g. PLCC or SOP socket)"),
        S("Boot from PC card (PCMCIA) is supported", "Boot from PC card (PCMCIA) is supported"),
        S("EDD is supported", "EDD specification is supported"),
        S("Japanese floppy for NEC 9800 1.2 MB is supported (int 13h)", "Int 13h — Japanese floppy for NEC 9800 1.2 MB (3.5”, 1K bytes/sector, 360 RPM) is supported"),
        S("Japanese floppy for Toshiba 1.2 MB is supported (int 13h)", "Int 13h — Japanese floppy for Toshiba 1.2 MB (3.5”, 360 RPM) is supported"),
        S("5.25\"/360 kB floppy services are supported (int 13h)", "Int 13h — 5.25” / 360 KB floppy services are supported"),
        S("5.25\"/1.2 MB floppy services are supported (int 13h)", "Int 13h — 5.25” /1.2 MB floppy services are supported"),
        S("3.5\"/720 kB floppy services are supported (int 13h)", "Int 13h — 3.5” / 720 KB floppy services are supported"),
        S("3.5\"/2.88 MB floppy services are supported (int 13h)", "Int 13h — 3.5” / 2.88 MB floppy services are supported"),
        S("Print screen service is supported (int 5h)", "Int 5h, print screen Service is supported"),
        S("8042 keyboard services are supported (int 9h)", "Int 9h, 8042 keyboard services are supported"),
        S("Serial services are supported (int 14h)", "Int 14h, serial services are supported"),
        S("Printer services are supported (int 17h)", "Int 17h, printer services are supported"),
        S("CGA/mono video services are supported (int 10h)", "Int 10h, CGA/Mono Video Services are supported"),
        S("NEC PC-98", "NEC PC-98"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for BIOS vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
        R("Reserved for system vendor"),
    ]
}
pub fn CharacteristicsExtension1() -> [FlagType<'static>; 8] {
    [
        S("ACPI is supported", "ACPI is supported"),
        S("USB legacy is supported", "USB Legacy is supported"),
        S("AGP is supported", "AGP is supported"),
        S("I2O boot is supported", "I2O boot is supported"),
        S("LS-120 SuperDisk boot is supported", "LS-120 SuperDisk boot is supported"),
        S("ATAPI ZIP drive boot is supported", "ATAPI ZIP drive boot is supported"),
        S("IEEE 1394 boot is supported", "1394 boot is supported"),
        S("Smart battery is supported", "Smart battery is supported"),
    ]
}
pub fn CharacteristicsExtension2() -> [FlagType<'static>; 8] {
    [
        S("BIOS boot specification is supported", "BIOS Boot specification is supported"),
        S("Function key-initiated network boot is supported", "Function key-initiated network service boot is supported. When function key-uninitiated network service boot is not supported, a network adapter option ROM may choose to offer this functionality on its own, thus offering this capability to legacy systems. When the function is supported, the network adapter option ROM shall not offer this capability"),
        S("Targeted content distribution is supported", "Enable targeted content distribution. The manufacturer has ensured that the SMBIOS data is useful in identifying the computer for targeted delivery of model-specific software and firmware content through third-party content distribution services"),
        S("UEFI is supported", "UEFI is supported"),
        S("System is a virtual machine", "SMBIOS table describes a virtual machine. (If this bit is not set, no inference can be made about the virtuality of the system.)"),
        R("Reserved for future assignment"),
        R("Reserved for future assignment"),
        R("Reserved for future assignment"),
    ]
}
pub fn SlotCharacteristics1() -> [FlagType<'static>; 8] {
    [
        S("Characteristics unknown", "Characteristics unknown"),
        S("5.0 V is provided", "Provides 5.0 volts"),
        S("3.3 V is provided", "Provides 3.3 volts"),
        S("Opening is shared", "Slot’s opening is shared with another slot (for example, PCI/EISA shared slot)"),
        S("PC Card-16 is supported", "PC Card slot supports PC Card-16"),
        S("Cardbus is supported", "PC Card slot supports CardBus"),
        S("Zoom Video is supported", "PC Card slot supports Zoom Video"),
        S("Modem ring resume is supported", "PC Card slot supports Modem Ring Resume"),
    ]
}
pub fn SlotCharacteristics2() -> [FlagType<'static>; 8] {
    [
        S("PME signal is supported", "PCI slot supports Power Management Event (PME#) signal"),
        S("Hot-plug devices are supported", "Slot supports hot-plug devices"),
        S("SMBus signal is supported", "PCI slot supports SMBus signal"),
        S("PCIe slot bifurcation is supported", "PCIe slot supports bifurcation. This slot can partition its lanes into two or more PCIe devices plugged into the slot. Note: This field does not indicate complete details on what levels of bifurcation are supported by the slot, but only that the slot supports some level of bifurcation"),
        S("Async/surprise removal is supported", "Slot supports async/surprise removal (i.e., removal without prior notification to the operating system, device driver, or applications)"),
        S("Flexbus slot, CXL 1.0 capable", "Flexbus slot, CXL 1.0 capable"),
        S("Flexbus slot, CXL 2.0 capable", "Flexbus slot, CXL 2.0 capable"),
        R("Reserved"),
    ]
}
pub fn LanguageFlags() -> [FlagType<'static>; 8] {
    [
        S("Current Language strings use the abbreviated format", "If the bit is 0, each language string is in the form “ISO 639-1 Language Name | ISO 3166-1-alpha-2 Territory Name | Encoding Method”.\nIf the bit is 1, each language string consists of the two-character “ISO 639-1 Language Name” directly followed by the two-character “ISO 3166-1-alpha-2 Territory Name”."),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
    ]
}
pub fn LogStatus() -> [FlagType<'static>; 8] {
    [
        S("Valid", "Log area valid"),
        S("Full", "Log area full"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
    ]
}
pub fn PostResults() -> [FlagType<'static>; 64] {
    [
        S("Channel 2 Timer error", "Channel 2 Timer error"),
        S("Primary PIC (8259 #1) error", "Primary PIC (8259 #1) error"),
        S("Secondary PIC (8259 #2) error", "Secondary PIC (8259 #2) error"),
        S("CMOS RAM Battery Failure", "CMOS RAM Battery Failure"),
        S("CMOS RAM System Options Not Set", "CMOS RAM System Options Not Set"),
        S("CMOS RAM Checksum Error", "CMOS RAM Checksum Error"),
        S("CMOS RAM Configuration Error", "CMOS RAM Configuration Error"),
        S("Mouse and Keyboard Swapped", "Mouse and Keyboard Swapped"),
        S("Keyboard Locked", "Keyboard Locked"),
        S("Keyboard Not Functional", "Keyboard Not Functional"),
        S("Keyboard Controller Not Functional", "Keyboard Controller Not Functional"),
        S("CMOS Memory Size Different", "CMOS Memory Size Different"),
        S("Memory Decreased in Size", "Memory Decreased in Size"),
        S("Cache Memory Error", "Cache Memory Error"),
        S("Floppy Drive 0 Error", "Floppy Drive 0 Error"),
        S("Floppy Drive 1 Error", "Floppy Drive 1 Error"),
        S("Floppy Controller Failure", "Floppy Controller Failure"),
        S("Number of ATA Drives Reduced Error", "Number of ATA Drives Reduced Error"),
        S("RTC Time Not Set", "RTC Time Not Set"),
        S("DDC Monitor Configuration Change", "DDC Monitor Configuration Change"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        S("Second DWORD has valid data", "Second DWORD has valid data"),
        R("Reserved"),
        R("Reserved"),
        R("Reserved"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        R("Available for OEM assignment"),
        S("PCI Memory Conflict", "PCI Memory Conflict"),
        S("PCI I/O Conflict", "PCI I/O Conflict"),
        S("PCI IRQ Conflict", "PCI IRQ Conflict"),
        S("PNP Memory Conflict", "PNP Memory Conflict"),
        S("PNP 32 bit Memory Conflict", "PNP 32 bit Memory Conflict"),
        S("PNP I/O Conflict", "PNP I/O Conflict"),
        S("PNP IRQ Conflict", "PNP IRQ Conflict"),
        S("PNP DMA Conflict", "PNP DMA Conflict"),
        S("Bad PNP Serial ID Checksum", "Bad PNP Serial ID Checksum"),
        S("Bad PNP Resource Data Checksum", "Bad PNP Resource Data Checksum"),
        S("Static Resource Conflict", "Static Resource Conflict"),
        S("NVRAM Checksum Error, NVRAM Cleared", "NVRAM Checksum Error, NVRAM Cleared"),
        S("System Board Device Resource Conflict", "System Board Device Resource Conflict"),
        S("Primary Output Device Not Found", "Primary Output Device Not Found"),
        S("Primary Input Device Not Found", "Primary Input Device Not Found"),
        S("Primary Boot Device Not Found", "Primary Boot Device Not Found"),
        S("NVRAM Cleared By Jumper", "NVRAM Cleared By Jumper"),
        S("NVRAM Data Invalid, NVRAM Cleared", "NVRAM Data Invalid, NVRAM Cleared"),
        S("FDC Resource Conflict", "FDC Resource Conflict"),
        S("Primary ATA Controller Resource Conflict", "Primary ATA Controller Resource Conflict"),
        S("Secondary ATA Controller Resource Conflict", "Secondary ATA Controller Resource Conflict"),
        S("Parallel Port Resource Conflict", "Parallel Port Resource Conflict"),
        S("Serial Port 1 Resource Conflict", "Serial Port 1 Resource Conflict"),
        S("Serial Port 2 Resource Conflict", "Serial Port 2 Resource Conflict"),
        S("Audio Resource Conflict", "Audio Resource Conflict"),
    ]
}
