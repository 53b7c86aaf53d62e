From 298e116a7fcace6114612c15f97cb96c5a14272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:02 +0000
Subject: [PATCH 01/22] fix: bound the structure walk by the buffer and reject
 undersized headers

A declared table length larger than the supplied buffer, a header length
below four or a length sum beyond 32 bits made the iterator panic or read
past the end of the buffer.
---
 src/lib.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..a32a440 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -522,21 +522,26 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        // The declared length may exceed the buffer that was actually provided, and offsets are
+        // 32 bits wide
+        let buffer = &self.buffer[..self.buffer.len().min(u32::MAX as usize)];
+        let limit = buffer.len().min(self.smbios_len as usize);
+        let idx = self.idx as usize;
+
+        let working = buffer.get(idx..limit)?;
+        if working.len() < mem::size_of::<HeaderPacked>() {
             return None;
         }
-
-        let working = &self.buffer[(self.idx as usize)..];
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        let strings_idx = idx + header.len as usize;
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= limit {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-        let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
+        let term = find_nulnul(&buffer[strings_idx..]);
         let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+            Some(terminator) => terminator + 1,
             None => {
                 return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
             }
@@ -547,11 +552,11 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &buffer[idx + mem::size_of::<HeaderPacked>()..strings_idx],
+            strings: &buffer[strings_idx..strings_idx + strings_len],
         };
 
-        self.idx = strings_idx + strings_len;
+        self.idx = (strings_idx + strings_len) as u32;
 
         Some(Ok(structure))
     }
-- 
2.43.0


From 54863cf6793bfd502624ec40f88961086ff0cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:02 +0000
Subject: [PATCH 02/22] fix: compare the entry point length without truncating
 the buffer length

The remaining buffer length was cut to eight bits before the comparison, so
a valid entry point was rejected whenever that length modulo 256 was small.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a32a440..1f90fb4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From 72828091d21dec3e76fc34a7cea0e09d4f8e5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:50 +0000
Subject: [PATCH 03/22] fix: check the formatted section length before decoding
 packed layouts

The decoders for types 0, 1, 2, 4, 7, 8 and 13 copied a packed layout picked
from the SMBIOS version alone, reading past the end of shorter structures.
Fall back to the smaller layouts and reject what is below the minimum. The
baseboard chassis handle needs nine bytes, not eight.
---
 src/lib.rs                           | 13 +++++++++++++
 src/structures/000_bios.rs           |  5 +++--
 src/structures/001_system.rs         |  5 +++--
 src/structures/002_baseboard.rs      | 18 +++++++-----------
 src/structures/004_processor.rs      | 11 ++++++-----
 src/structures/007_cache.rs          |  5 +++--
 src/structures/008_port_connector.rs |  1 +
 src/structures/013_bios_language.rs  |  2 ++
 8 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f90fb4..6fc14f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -634,6 +634,19 @@ impl<'buffer> RawStructure<'buffer> {
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
+    /// Checks that the *Formatted section* holds at least `len` bytes after its header.
+    pub(crate) fn ensure_data_len(&self, len: usize) -> Result<(), MalformedStructureError> {
+        lib_ensure!(
+            self.data.len() >= len,
+            MalformedStructureError::InvalidFormattedSectionLength(
+                self.info,
+                self.handle,
+                "minimum of ",
+                (len + mem::size_of::<HeaderPacked>()) as u8
+            )
+        );
+        Ok(())
+    }
     /// Get value by offset declared in SMBIOS Reference Specification.\
     /// Type meaning data length is mandatory:
     /// - *BYTE*: u8
diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..82709f6 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -126,7 +126,7 @@ impl<'buffer> Bios<'buffer> {
         }
 
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= core::mem::size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +155,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= core::mem::size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -185,6 +185,7 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             _ => {
+                structure.ensure_data_len(core::mem::size_of::<BiosPacked2_0>())?;
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..056f305 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -107,7 +107,8 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.version < (2, 1).into() || structure.data.len() < core::mem::size_of::<SystemPacked2_1>() {
+            structure.ensure_data_len(core::mem::size_of::<SystemPacked2_0>())?;
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +122,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < core::mem::size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..f983380 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -110,37 +110,33 @@ impl<'buffer> BaseBoard<'buffer> {
             product: u8,
             version: u8,
             serial: u8,
-            asset: u8,
-            feature_flags: u8,
-            location_in_chassis: u8,
-            chassis_handle: u16,
-            board_type: u8,
         }
 
+        structure.ensure_data_len(core::mem::size_of::<BaseBoardPacked>())?;
         let_as_struct!(packed, BaseBoardPacked, structure.data);
 
         let asset = if structure.data.len() > 4 {
-            Some(structure.find_string(packed.asset)?)
+            Some(structure.get_string(0x08)?)
         } else {
             None
         };
         let feature_flags = if structure.data.len() > 5 {
-            Some(BaseBoardFlags::from_bits_truncate(packed.feature_flags))
+            Some(BaseBoardFlags::from_bits_truncate(structure.get::<u8>(0x09)?))
         } else {
             None
         };
         let location_in_chassis = if structure.data.len() > 6 {
-            Some(structure.find_string(packed.location_in_chassis)?)
+            Some(structure.get_string(0x0A)?)
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
-            Some(packed.chassis_handle)
+        let chassis_handle = if structure.data.len() > 8 {
+            Some(structure.get::<u16>(0x0B)?)
         } else {
             None
         };
         let board_type = if structure.data.len() > 9 {
-            Some(packed.board_type.into())
+            Some(structure.get::<u8>(0x0D)?.into())
         } else {
             None
         };
diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..d5af32b 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -615,7 +615,8 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        if structure.version < (2, 1).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_1>() {
+            structure.ensure_data_len(core::mem::size_of::<ProcessorPacked2_0>())?;
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +644,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +672,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +700,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +728,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..2c0b45c 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -212,7 +212,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v > (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +230,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v > (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -249,6 +249,7 @@ impl<'buffer> Cache<'buffer> {
                 })
             }
             v if v > (2, 0).into() => {
+                structure.ensure_data_len(core::mem::size_of::<CachePacked2_0>())?;
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..1b375e3 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,7 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        structure.ensure_data_len(core::mem::size_of::<PortConnectorPacked>())?;
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..9986aa4 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,7 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                structure.ensure_data_len(core::mem::size_of::<BiosLanguagePacked2_1>())?;
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +60,7 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                structure.ensure_data_len(core::mem::size_of::<BiosLanguagePacked2_0>())?;
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From dcd1e04bd7eead1dcf6654d49147d5a7aaca5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:11 +0000
Subject: [PATCH 04/22] fix: do not read past short peer device and contained
 element records

Both conversions from a byte slice are safe and public but copied a packed
layout without looking at the slice length.
---
 src/structures/003_enclosure.rs    | 16 +++++-----------
 src/structures/009_system_slots.rs | 21 ++++++---------------
 2 files changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..713820f 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -461,18 +461,12 @@ impl Iterator for ContainedElements<'_> {
 
 impl From<&[u8]> for ContainedElement {
     fn from(data: &[u8]) -> ContainedElement {
-        #[repr(C)]
-        #[repr(packed)]
-        struct ContainedElement2_3 {
-            type_: u8,
-            minimum: u8,
-            maximum: u8,
-        }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // Bytes missing from a short record read as zero
+        let byte = |i: usize| data.get(i).copied().unwrap_or(0);
         ContainedElement {
-            type_: packed.type_.into(),
-            minimum: packed.minimum,
-            maximum: packed.maximum,
+            type_: byte(0).into(),
+            minimum: byte(1),
+            maximum: byte(2),
         }
     }
 }
diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..cb9ba06 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -313,16 +313,6 @@ pub struct Device {
 #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
 pub struct DeviceAndFunctionNumber(u8, u8);
 
-// Used in 2 Base Device and in Peer Devices
-#[repr(C)]
-#[repr(packed)]
-struct DevicePacked {
-    segment_group_number: u16,
-    bus_number: u8,
-    dev_and_fun_number: u8,
-    data_bus_width: u8,
-}
-
 /// An iterator over Peer Segment/Bus/Device/Function/Width groups
 #[derive(Clone, Debug)]
 pub struct PeerDevices<'a>(Chunks<'a, u8>);
@@ -797,12 +787,13 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // Bytes missing from a short record read as zero
+        let byte = |i: usize| data.get(i).copied().unwrap_or(0);
         Device {
-            segment_group_number: packed.segment_group_number,
-            bus_number: packed.bus_number,
-            device_and_function_number: packed.dev_and_fun_number.into(),
-            data_bus_width: packed.data_bus_width,
+            segment_group_number: u16::from_le_bytes([byte(0), byte(1)]),
+            bus_number: byte(2),
+            device_and_function_number: byte(3).into(),
+            data_bus_width: byte(4),
         }
     }
 }
-- 
2.43.0


From 1e0e650625b375d4cb7567515ad6f21bd5b661ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:12 +0000
Subject: [PATCH 05/22] fix: compute the contained elements length without
 overflowing u8

---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 713820f..29b8dbe 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
-- 
2.43.0


From 13f55a9b2ffce7f540a6417e549646f0d005cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 06/22] fix: do not panic on BIOS ROM sizes without a usable
 extended size

Basic size FFh is valid before SMBIOS 3.1 and units 10b and 11b may appear
in any table; report the 16 MB lower bound the basic size stands for.
---
 src/structures/000_bios.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 82709f6..0f8a42c 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -326,10 +326,12 @@ impl From<RomSize> for u64 {
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                // Reserved units, all that is known is that the size is 16MB or greater
+                _ => 16 << 20,
             }
         } else {
-            unreachable!();
+            // FFh - size is 16MB or greater
+            16 << 20
         }
     }
 }
-- 
2.43.0


From 37d48218e599645968742be729b16bf8f601c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:38 +0000
Subject: [PATCH 07/22] fix: decode cache structures of SMBIOS 2.0, 2.1 and 3.1
 with their own layout

The version comparisons excluded the version that introduced each layout and
panicked for 2.0.
---
 src/structures/007_cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 2c0b45c..52de8cb 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -212,7 +212,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
+            v if v >= (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +230,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
+            v if v >= (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +248,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
                 structure.ensure_data_len(core::mem::size_of::<CachePacked2_0>())?;
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
@@ -267,7 +267,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From c0b72c0235b22050c49e14d737cbfe4d337ea151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:27 +0000
Subject: [PATCH 08/22] fix: report group associations without a group name
 instead of underflowing

---
 src/structures/014_group_associations.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..a051cae 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,15 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = (structure.length as usize)
+            .checked_sub(0x05)
+            .and_then(|size| structure.get_slice(0x05, size))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "",
+                structure.length,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 68a6d12de91ce8ff330c9a7bd55e51e91f02fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:29 +0000
Subject: [PATCH 09/22] fix: accept event logs with a zero descriptor length

---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..57c6bad 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // A zero descriptor length leaves no data to iterate over, but chunks(0) panics
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From a69d99e675bc4f527c01ccc5d668edff5b2de398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:32 +0000
Subject: [PATCH 10/22] fix: decode physical memory arrays of SMBIOS 2.1 and
 2.7 and check their length

---
 src/structures/016_physical_memory_array.rs | 86 +++------------------
 1 file changed, 10 insertions(+), 76 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..395b9c1 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -3,7 +3,6 @@
 //! This structure describes a collection of memory devices that operate together to form a memory
 //! address space.
 
-use core::convert::TryInto;
 use core::fmt;
 
 use crate::{MalformedStructureError, RawStructure};
@@ -197,83 +196,18 @@ pub struct PhysicalMemoryArray {
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
         let mut pma = PhysicalMemoryArray::default();
-        let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
-            pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
-            pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
+        pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
+            pma.location = structure.get::<u8>(0x04)?.into();
+            pma.r#use = structure.get::<u8>(0x05)?.into();
+            pma.memory_error_correction = structure.get::<u8>(0x06)?.into();
+            pma.maximum_capacity = Some(structure.get::<u32>(0x07)?).filter(|&v| v != 0x8000_0000);
+            pma.memory_error_information_handle = Some(structure.get::<u16>(0x0B)?).filter(|&v| v != 0xFFFE);
+            pma.number_of_memory_devices = structure.get::<u16>(0x0D)?;
         }
-        if structure.version > (2, 7).into() {
-            pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
-                get_optional_qword(&mut mem_pointer, structure.data, 0)?
-            } else {
-                None
-            };
+        if structure.version >= (2, 7).into() && pma.maximum_capacity.is_none() {
+            pma.extended_maximum_capacity = structure.get::<u64>(0x0F).ok().filter(|&v| v != 0);
         }
         Ok(pma)
     }
 }
-
-fn get_optional_qword(pointer: &mut usize, data: &[u8], none_val: u64) -> Result<Option<u64>, MalformedStructureError> {
-    let word = get_qword(pointer, data)?;
-    if word == none_val {
-        Ok(None)
-    } else {
-        Ok(Some(word))
-    }
-}
-
-fn get_optional_dword(pointer: &mut usize, data: &[u8], none_val: u32) -> Result<Option<u32>, MalformedStructureError> {
-    let word = get_dword(pointer, data)?;
-    if word == none_val {
-        Ok(None)
-    } else {
-        Ok(Some(word))
-    }
-}
-
-fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<Option<u16>, MalformedStructureError> {
-    let word = get_word(pointer, data)?;
-    if word == none_val {
-        Ok(None)
-    } else {
-        Ok(Some(word))
-    }
-}
-
-fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
-    let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
-            .try_into()
-            .map_err(MalformedStructureError::InvalidSlice)?,
-    );
-    *pointer += 2;
-    Ok(word)
-}
-
-fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
-    let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
-            .try_into()
-            .map_err(MalformedStructureError::InvalidSlice)?,
-    );
-    *pointer += 4;
-    Ok(dword)
-}
-
-fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
-    let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
-            .try_into()
-            .map_err(MalformedStructureError::InvalidSlice)?,
-    );
-    *pointer += 8;
-    Ok(qword)
-}
-- 
2.43.0


From fd874b8a83191bac72055497b349ee39ddaac4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:34 +0000
Subject: [PATCH 11/22] fix: use the specified codes of the PC-98 and CXL
 memory array locations

---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 395b9c1..607f77c 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -41,11 +41,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 86c718351e20bede685c13ca5e0f8570c531d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 12/22] fix: use the specified codes of the memory device form
 factors

---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From b0b07f856d25e56f813f499c3fb4bf2f90dc92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:38 +0000
Subject: [PATCH 13/22] fix: stop the installable languages after the last
 string number

---
 src/structures/013_bios_language.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 9986aa4..511d74f 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -83,7 +83,11 @@ impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index;
-        self.index += 1;
+        // String numbers are one-based bytes: after the 255th there are no more
+        if index == 0 {
+            return None;
+        }
+        self.index = index.wrapping_add(1);
         self.structure.find_string(index).ok()
     }
 }
-- 
2.43.0


From d5291430fa952bd7a812264f6e306ae4a1f642f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:40 +0000
Subject: [PATCH 14/22] fix: compute the battery design capacity without
 overflowing u16

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..400a869 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => u64::from(value) * u64::from(multiplier),
         }
     }
 }
-- 
2.43.0


From 9ea41d91670a3df477262b797ed4179e4ad65fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:42 +0000
Subject: [PATCH 15/22] fix: decode the SFF-8639 (U.2) slot types

---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index cb9ba06..da73986 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -427,13 +427,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 388baf5447192e4177119ddd593b9ef3f8661327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:57 +0000
Subject: [PATCH 16/22] fix: report the processor characteristics of SMBIOS 2.5
 processors

---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index d5af32b..fac9f54 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -726,7 +726,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From edd8e7b95aa8696dfcec1c2119c64d228d6e6ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:59 +0000
Subject: [PATCH 17/22] fix: reject structure offsets inside the header or past
 the address space

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6fc14f5..2b077e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -659,15 +659,14 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
-        let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, core::mem::size_of::<T>()).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        // Ignore header
+        let start = offset.checked_sub(4)?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From ed71e490a0afd3af961d167deef658703ea9c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 18/22] fix: report the end of one-bit reserved ranges
 following another reserved range

---
 src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..7e86ac9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,8 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        // A pending range may still end at the bit it starts with
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From ffab025f4706742df8bc49eda60eee474a0edfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:09 +0000
Subject: [PATCH 19/22] fix: slot pitch is in units of 1/100 millimeter

---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index da73986..1fde69c 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -868,7 +868,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From a1b69c428b5a01c2576234a89bd60955c6532f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:46 +0000
Subject: [PATCH 20/22] fix: report the required length of a whole enclosure
 structure

A structure refused as too short was told to be a minimum of 5 bytes long,
the size without its header; 9 are required.
---
 src/structures/003_enclosure.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 29b8dbe..3f46474 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -192,14 +192,7 @@ impl<'buffer> Enclosure<'buffer> {
             }
         }
 
-        if structure.data.len() < core::mem::size_of::<EnclosurePacked2_0>() {
-            return Err(crate::MalformedStructureError::InvalidFormattedSectionLength(
-                structure.info,
-                structure.handle,
-                "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
-            ));
-        }
+        structure.ensure_data_len(core::mem::size_of::<EnclosurePacked2_0>())?;
 
         let (minimum, mut extra) = structure.data.split_at(core::mem::size_of::<EnclosurePacked2_0>());
         let_as_struct!(packed, EnclosurePacked2_0, minimum);
-- 
2.43.0


From 862b6c9bdda21162daf99007ffef6c9e7cee4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:48 +0000
Subject: [PATCH 21/22] fix: report the required length of a group associations
 structure

The error named the length the refused structure has instead of the one it needs.
---
 src/structures/014_group_associations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index a051cae..1393f4e 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -47,8 +47,8 @@ impl<'a> GroupAssociations<'a> {
             .ok_or(InvalidFormattedSectionLength(
                 InfoType::GroupAssociations,
                 handle,
-                "",
-                structure.length,
+                "minimum of ",
+                0x05,
             ))?;
         Ok(GroupAssociations {
             handle,
-- 
2.43.0


From 08928c543180fc905f718147d58cafa71a1219ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:50 +0000
Subject: [PATCH 22/22] fix: report the required length of a system event log
 structure

A structure too short for its descriptor counts was told to be a minimum of 0 bytes long.
---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 57c6bad..051a7b5 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0

