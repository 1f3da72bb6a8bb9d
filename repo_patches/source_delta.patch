From a6303876c6a91e543ccb0e72fb841f357a00f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 01/24] Add re-exports for verification harnesses behind
 cfg(md_recover_verif)

---
 src/ext4/mod.rs | 13 +++++++++++++
 src/main.rs     | 14 +++++++++++++-
 src/md/mod.rs   | 17 +++++++++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 5dc78f6..1942735 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -14,3 +14,16 @@ mod units;
 pub use self::{
     directory::Ext4Directory, file::Ext4File, fs::Ext4Fs, regular_file::Ext4RegularFile,
 };
+
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub use super::block_group::{BlockGroupDescriptor, Flags as BlockGroupFlags};
+    pub use super::inode::{FileMode, FileType, Flags as InodeFlags, Inode, Permissions};
+    pub use super::string::Ext4String;
+    pub use super::superblock::{
+        Checksum, CompatibleFeatures, CreatorOs, EncryptionAlgorithm, ErrorPolicy, HashVersion,
+        IncompatibleFeatures, MountOptions, ReadOnlyCompatibleFeatures, State, Superblock,
+    };
+    pub use super::units::*;
+    pub use super::{Ext4Directory, Ext4File, Ext4Fs, Ext4RegularFile};
+}
diff --git a/src/main.rs b/src/main.rs
index c260d95..8b0e025 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,4 @@
-#![allow(dead_code, clippy::module_inception)]
+#![allow(dead_code, unexpected_cfgs, clippy::module_inception)]
 
 #[macro_use]
 extern crate arrayref;
@@ -17,6 +17,18 @@ mod ext4;
 mod ioctl;
 mod md;
 
+/// Re-exports for external verification harnesses, which compile this file as
+/// a library with `--cfg md_recover_verif`.
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub use crate::block_device::{
+        BlockCount, BlockDevice, BlockDeviceReader, BlockNumber, BlockSize, FileBlockDevice,
+        InMemoryBlockDevice, NativeBlockDevice,
+    };
+    pub use crate::ext4::verif as ext4;
+    pub use crate::md::verif as md;
+}
+
 #[derive(Parser, Debug)]
 #[command(author, version, about)]
 struct Options {
diff --git a/src/md/mod.rs b/src/md/mod.rs
index 6c71e93..95c9936 100644
--- a/src/md/mod.rs
+++ b/src/md/mod.rs
@@ -14,3 +14,20 @@ pub use self::{
     array::MdArray,
     device::{MdDevice, MdDeviceId, MdDeviceSuperblock},
 };
+
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub use super::{
+        algorithm::MdAlgorithm,
+        array::MdArray,
+        device::{MdDevice, MdDeviceId, MdDeviceSuperblock},
+        diagnosis::Diagnosis,
+        raid5::Raid5Algorithm,
+        raid6::Raid6Algorithm,
+        superblock::{
+            ArrayUuid, MdDeviceRole, ReshapeStatus, Superblock, SuperblockVersion0,
+            SuperblockVersion1,
+        },
+        units::*,
+    };
+}
-- 
2.43.0


From f235fe176ac31d8cfcfc088ae43eeac2ae73d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 02/24] fix: read array members at their data offset,
 bounds-check array reads

---
 src/md/array.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..9aa7157 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -142,6 +142,10 @@ where
             .or(self.definition.format.as_ref())
             .ok_or(io::ErrorKind::InvalidData)?;
 
+        if block_number >= self.block_count()? {
+            Err(io::ErrorKind::InvalidInput)?;
+        }
+
         let block = format.algorithm.read_sector(
             SectorNumber::from_block_number(block_number),
             format.chunk_size,
@@ -158,9 +162,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidInput)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
                     u64::from(sector_number)
+                        .checked_add(u64::from(data_offset))
+                        .ok_or(io::ErrorKind::InvalidInput)?
                         .checked_mul(512)
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
@@ -168,7 +179,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From ad89274bf0d7d4036800cb6b73843d872c82b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 03/24] fix: count only whole chunks towards the size of an
 array

---
 src/md/format.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/md/format.rs b/src/md/format.rs
index 1e1bb19..8cdcc6b 100644
--- a/src/md/format.rs
+++ b/src/md/format.rs
@@ -46,7 +46,10 @@ impl MdFormat {
     }
 
     pub fn data_sector_count(&self) -> Option<SectorCount<u64>> {
-        u64::from(self.sectors_per_device)
+        // Only whole chunks hold array data. MD leaves any remainder unused.
+        let sectors_per_device = u64::from(self.sectors_per_device);
+        let unused = sectors_per_device.checked_rem(u64::from(self.chunk_size))?;
+        (sectors_per_device - unused)
             .checked_mul(u64::from(self.data_device_count()?))
             .map(SectorCount)
     }
-- 
2.43.0


From b9ff4a1f519704a8118d21276ce2e87aa1cc7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 04/24] fix: decode the units and reshape state of version 0
 superblocks

---
 src/md/superblock/version_0/superblock.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..a6a8ca7 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // Version 0 superblocks store the device size in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // Version 0 superblocks store the chunk size in bytes.
+        SectorCount(u32::from(self.chunk_size) >> 9)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
@@ -138,7 +140,16 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        // The reshape fields are only meaningful from minor version 91, which
+        // Linux writes while a reshape is in progress.
+        if self.minor_version >= 91 {
+            Some(ReshapeStatus {
+                new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) >> 9),
+                ..self.reshape_status.clone()
+            })
+        } else {
+            None
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 3ca092bc3e8c419579f09f4c1ca03142c113ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/24] fix: accept the highest valid device role

---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From 7fc0feed70cab176402c606fce7b42211d89c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 06/24] fix: reconcile device roles independently of the order
 of devices

---
 src/md/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 9aa7157..b5fe824 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -39,10 +39,10 @@ where
                             .zip_longest(roles)
                             .map(|pair| match pair {
                                 EitherOrBoth::Both(left, right) => {
-                                    if left.is_spare() || right.is_invalid() || left.is_faulty() {
+                                    if left.is_spare() || left.is_invalid() || left.is_faulty() {
                                         Some(right)
                                     } else if right.is_spare()
-                                        || left.is_invalid()
+                                        || right.is_invalid()
                                         || right.is_faulty()
                                         || left == right
                                     {
-- 
2.43.0


From b52f4f4ab5877d376773ae483f13d9d8b11e0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 07/24] fix: report out-of-range reads of in-memory devices
 instead of panicking

---
 src/block_device/in_memory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..7333d23 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,14 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block_size = usize::from(self.block_size);
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|rest| rest.get(..block_size))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block_size].copy_from_slice(block);
+            Ok(block_size)
         }
     }
 
-- 
2.43.0


From b81b9a64647ff7665cb643e10493f975b2d9c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 08/24] fix: read exactly one filesystem block into larger
 buffers

---
 src/ext4/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..d3b80bf 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -113,7 +113,8 @@ where
         block_number: FsBlockNumber,
         buf: &mut [u8],
     ) -> io::Result<()> {
-        if buf.len() < self.block_size() {
+        let block_size = self.block_size();
+        if buf.len() < block_size {
             Err(io::ErrorKind::InvalidInput.into())
         } else {
             self.device.seek(SeekFrom::Start(
@@ -121,7 +122,7 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 2b068319c121fffdfd7058faef140437bd204e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 09/24] fix: order ext4 strings consistently with their
 equality

---
 src/ext4/string.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..b182134 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,9 +73,7 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
-- 
2.43.0


From 9155243b87d29b0160f26760a9a9f3035d558afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 10/24] fix: reject ext4 superblocks with unsupported block
 sizes

---
 src/ext4/superblock/superblock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c667dfb..8391661 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -142,7 +142,8 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn valid_block_size(&self) -> bool {
-        self.view().into_log_block_size().read() < 53
+        // The largest block size ext4 supports is 64 KiB.
+        self.view().into_log_block_size().read() <= 6
     }
 
     pub fn valid_cluster_size(&self) -> bool {
-- 
2.43.0


From cc5b9be44bc204eef6bb535a72e5407a29b007e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 11/24] fix: require a checksum in superblocks of checksummed
 filesystems

---
 src/ext4/superblock/superblock.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index 8391661..bf9ac31 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -170,7 +170,9 @@ impl<S: AsRef<[u8]>> Superblock<S> {
 
     pub fn valid_checksum(&self) -> bool {
         match self.checksum() {
-            Checksum::None => true,
+            Checksum::None => !self
+                .read_only_compatible_features()
+                .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS),
             Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),
             Checksum::Unknown(_, _) => false,
         }
-- 
2.43.0


From a64b1a4c22bd4df73d4553cb296d8a2bbe4215eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 12/24] fix: reject nonsensical ext4 group counts instead of
 panicking

---
 src/ext4/fs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index d3b80bf..e9f8e39 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,8 +30,6 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
@@ -46,11 +44,13 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = u32::try_from(u64::from(block_count).div_ceil(blocks_per_group))
+            .or(Err(io::ErrorKind::Unsupported))?;
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From 364db11d3d9ab6d86e0c48f499efe1d22bc7aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 13/24] fix: bound the extra inode fields by the size of the
 inode

---
 src/ext4/fs.rs          |  1 +
 src/ext4/inode/inode.rs | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index e9f8e39..aae91a2 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -35,6 +35,7 @@ where
         if blocks_per_group == 0
             || group_size == 0
             || superblock.inodes_per_group() == InodeCount(0)
+            || superblock.inode_size() < 128
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
                 .incompatible_features()
diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..2691a3b 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -55,15 +55,17 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
-                    > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
-                {
-                    usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
-                } else {
-                    0
-                })
-                .clamp(0, layout::SIZE.unwrap());
+            let buffer_length = buffer.as_ref().len();
+            let extra_length = if buffer_length
+                > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
+            {
+                usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
+            } else {
+                0
+            };
+            let source_length = (layout::extra_isize::OFFSET + extra_length)
+                .min(layout::SIZE.unwrap())
+                .min(buffer_length);
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From e0ddd00f983aa823b0d1760b83cedb657199f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 14/24] fix: decode extent lengths correctly and read
 uninitialized extents as zeros

---
 src/ext4/extent/extent.rs | 12 ++++++++++--
 src/ext4/file.rs          |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..a298359 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -12,6 +12,9 @@ binary_layout!(layout, LittleEndian, {
 pub struct Extent<S: AsRef<[u8]>>(layout::View<S>);
 
 impl<S: AsRef<[u8]>> Extent<S> {
+    /// Greater lengths denote uninitialized extents.
+    const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
     pub fn new(storage: S) -> Self {
         Self(layout::View::new(storage))
     }
@@ -21,11 +24,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= Self::MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if self.initialized() {
+            length
+        } else {
+            length - Self::MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..2f5cb9b 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -135,8 +135,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From bb08fa55eb7211c09561bd56202df25eb4002939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 15/24] fix: validate extent trees before using them

---
 src/ext4/extent/tree.rs | 14 ++++++++++----
 src/ext4/file.rs        |  7 +++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..ba072e9 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,14 +206,20 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        // The tail follows the space for the maximum number of entries, not
+        // the entries that are in use.
+        let max_entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
             None => 0,
         };
 
-        if self.view().entries_and_tail().as_ref().len() < entries_size + tail_size {
+        if self.view().entries_and_tail().as_ref().len() < max_entries_size + tail_size {
             return false;
         }
 
@@ -222,10 +228,10 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             Some(checksum_seed) => {
                 let expected_checksum = ext4_crc32c(
                     checksum_seed,
-                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + entries_size],
+                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + max_entries_size],
                 );
 
-                tail::layout::View::new(&self.view().entries_and_tail()[entries_size..])
+                tail::layout::View::new(&self.view().entries_and_tail()[max_entries_size..])
                     .checksum()
                     .read()
                     == expected_checksum
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 2f5cb9b..39dc033 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -61,6 +61,10 @@ where
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
 
+        if !tree.valid() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         Ok(Self {
             fs,
             inode,
@@ -103,6 +107,9 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid() {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
-- 
2.43.0


From ce714ca0ab2ac01eeba383a4f23d672ca76a3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 16/24] fix: make progress through every extent tree

---
 src/ext4/extent/tree.rs | 12 ++++++++++++
 src/ext4/file.rs        |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index ba072e9..d7fefec 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -54,6 +54,14 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(ExtentBranch(internal)) | ExtentTree::Leaf(ExtentLeaf(internal)) => {
+                internal.depth()
+            }
+        }
+    }
+
     pub fn to_owned(&self) -> ExtentTree<Vec<u8>> {
         match self {
             ExtentTree::Branch(branch) => ExtentTree::Branch(branch.to_owned()),
@@ -93,6 +101,10 @@ impl<S: AsRef<[u8]>> ExtentBranch<S> {
         self.0.entries_storage()
     }
 
+    pub fn depth(&self) -> u16 {
+        self.0.depth()
+    }
+
     pub fn generation(&self) -> u32 {
         self.0.generation()
     }
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 39dc033..5b32715 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -107,7 +107,10 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
-                                if !subtree.valid() {
+                                if !subtree.valid()
+                                    || subtree.depth() != branch.depth() - 1
+                                    || subtree.entry_count() == 0
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
@@ -121,7 +124,9 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if extent.first_file_block_number() != self.block_pos
+                                    || extent.length() == BlockCount(0)
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
-- 
2.43.0


From 7157088656c443678d0f7df0fe91b01df721546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 17/24] fix: take the length of directory entry names from the
 entry

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From db2460739a9d24fcf7a23ce2f6f501bfac8182fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 18/24] fix: leave unused entries out of directory listings

---
 src/ext4/directory/directory.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/directory.rs b/src/ext4/directory/directory.rs
index 57b5d0e..6672951 100644
--- a/src/ext4/directory/directory.rs
+++ b/src/ext4/directory/directory.rs
@@ -3,6 +3,7 @@ use crate::ext4::directory::block::Ext4DirectoryBlock;
 use crate::ext4::directory::dir_entry::DirEntry;
 use crate::ext4::file::Ext4FileInternal;
 use crate::ext4::inode::Inode;
+use crate::ext4::units::InodeNumber;
 use crate::ext4::{inode, Ext4Fs};
 use std::io;
 use std::io::{Read, Seek};
@@ -46,7 +47,10 @@ where
 
         while let CurrentBlock::Block(block) = &mut self.current_block {
             if let Some(entry) = block.read_next_entry() {
-                return Ok(Some(entry.to_owned()));
+                // Unused and deleted entries have no inode.
+                if entry.inode() != InodeNumber(0) {
+                    return Ok(Some(entry.to_owned()));
+                }
             } else {
                 self.current_block = match self.read_next_block()? {
                     Some(block) => CurrentBlock::Block(block),
-- 
2.43.0


From f88aff9eb6acee430c07721d2189c8de86407f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 19/24] fix: report malformed directory entries instead of
 skipping the entries after them

---
 src/ext4/directory/block.rs     | 6 ++++++
 src/ext4/directory/dir_entry.rs | 6 +++++-
 src/ext4/directory/directory.rs | 2 ++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 05b4f47..ee91123 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -45,6 +45,12 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
         })
     }
 
+    /// Whether every entry was read. If not, and there is no next entry, then
+    /// the rest of the block is malformed.
+    pub fn is_exhausted(&self) -> bool {
+        self.pos == self.len
+    }
+
     pub fn read_next_entry(&mut self) -> Option<DirEntry<&[u8]>> {
         let rest = &self.storage.as_ref()[self.pos..self.len];
         let (entry, rest) = DirEntry::from_buf(rest);
diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index c673860..33eabe0 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -18,7 +18,11 @@ impl<'buf> DirEntry<&'buf [u8]> {
     pub(super) fn from_buf(buf: &'buf [u8]) -> (Option<Self>, &'buf [u8]) {
         if buf.len() >= layout::name::OFFSET {
             let view = layout::View::new(buf);
-            let record_length = usize::from(view.record_length().read());
+            let record_length = match view.record_length().read() {
+                // A record that fills a 64 KiB block.
+                0 | 0xffff if buf.len() == 0x10000 => 0x10000,
+                record_length => usize::from(record_length),
+            };
             let name_length = usize::from(view.name_length().read());
             if record_length <= buf.len() && record_length >= (layout::name::OFFSET + name_length) {
                 return (Some(Self(&buf[..record_length])), &buf[record_length..]);
diff --git a/src/ext4/directory/directory.rs b/src/ext4/directory/directory.rs
index 6672951..37a39bf 100644
--- a/src/ext4/directory/directory.rs
+++ b/src/ext4/directory/directory.rs
@@ -51,6 +51,8 @@ where
                 if entry.inode() != InodeNumber(0) {
                     return Ok(Some(entry.to_owned()));
                 }
+            } else if !block.is_exhausted() {
+                return Err(io::ErrorKind::InvalidData.into());
             } else {
                 self.current_block = match self.read_next_block()? {
                     Some(block) => CurrentBlock::Block(block),
-- 
2.43.0


From 88dde3824d14b3cfc3b36a3009eee3d46384b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 20/24] fix: end files at their size, even if blocks are
 preallocated beyond it

---
 src/ext4/file.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 5b32715..73a306b 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -87,15 +87,14 @@ where
             return Err(io::ErrorKind::InvalidInput.into());
         }
 
+        // Blocks may be preallocated beyond the end of the file.
+        if self.byte_pos >= self.file_size_bytes() {
+            return Ok(0);
+        }
+
         loop {
             match self.read_stack.pop() {
-                None => {
-                    return if self.byte_pos == self.file_size_bytes() {
-                        Ok(0)
-                    } else {
-                        Err(io::ErrorKind::UnexpectedEof.into())
-                    }
-                }
+                None => return Err(io::ErrorKind::UnexpectedEof.into()),
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
                         match tree {
@@ -143,10 +142,6 @@ where
                 }
                 Some(ReadStackEntry::Extent { extent, pos }) => {
                     if pos < extent.length() {
-                        if self.byte_pos >= self.file_size_bytes() {
-                            return Err(io::ErrorKind::InvalidData.into());
-                        }
-
                         if extent.initialized() {
                             self.fs
                                 .read_block(extent.first_fs_block_number() + pos, buf)?;
-- 
2.43.0


From f8e60174186b10bf1a02ecfcc6f2d41e82cc4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 21/24] fix: find the group descriptors of bigalloc filesystems
 with 1 KiB blocks

---
 src/ext4/fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index aae91a2..2dc6f1e 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -47,7 +47,10 @@ where
 
         let group_count = u32::try_from(u64::from(block_count).div_ceil(blocks_per_group))
             .or(Err(io::ErrorKind::Unsupported))?;
-        let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
+        // Group descriptors follow the block that contains the superblock. That
+        // is not always the first data block: if clusters are larger than
+        // blocks of 1 KiB then the first data block is 0.
+        let group_descriptors_block_number = 1024 / superblock.block_size_bytes() + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-- 
2.43.0


From 0b7bcbd4cdf00398fe9d5a933eb90d3adc5002a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 22/24] fix: ignore the group descriptor size of filesystems
 that are not 64-bit

---
 src/ext4/fs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 2dc6f1e..bab8e33 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -10,6 +10,8 @@ use std::io;
 use std::io::{Read, Seek, SeekFrom};
 use std::rc::Rc;
 
+const MIN_GROUP_DESCRIPTOR_SIZE: usize = 32;
+
 #[derive(Clone)]
 pub struct Ext4Fs<D>
 where
@@ -30,7 +32,15 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_size = usize::from(superblock.group_descriptor_size());
+        // Only 64-bit filesystems say how large their group descriptors are.
+        let group_size = if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::IS_64_BIT)
+        {
+            usize::from(superblock.group_descriptor_size())
+        } else {
+            MIN_GROUP_DESCRIPTOR_SIZE
+        };
 
         if blocks_per_group == 0
             || group_size == 0
-- 
2.43.0


From 49b4449696cc2fcca8cbb8b5fdee1c737aba3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 23/24] fix: refuse nonsensical sizes of group descriptors

---
 src/ext4/fs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index bab8e33..c006a33 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -10,7 +10,8 @@ use std::io;
 use std::io::{Read, Seek, SeekFrom};
 use std::rc::Rc;
 
-const MIN_GROUP_DESCRIPTOR_SIZE: usize = 32;
+const MIN_GROUP_DESCRIPTOR_SIZE: u16 = 32;
+const MAX_GROUP_DESCRIPTOR_SIZE: u16 = 1024;
 
 #[derive(Clone)]
 pub struct Ext4Fs<D>
@@ -37,13 +38,14 @@ where
             .incompatible_features()
             .contains(IncompatibleFeatures::IS_64_BIT)
         {
-            usize::from(superblock.group_descriptor_size())
+            superblock.group_descriptor_size()
         } else {
             MIN_GROUP_DESCRIPTOR_SIZE
         };
 
         if blocks_per_group == 0
-            || group_size == 0
+            || !group_size.is_power_of_two()
+            || !(MIN_GROUP_DESCRIPTOR_SIZE..=MAX_GROUP_DESCRIPTOR_SIZE).contains(&group_size)
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.inode_size() < 128
             || superblock.creator_os() != CreatorOs::Linux
@@ -66,7 +68,7 @@ where
         ))?;
         let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
-            let mut buf = vec![0u8; group_size];
+            let mut buf = vec![0u8; group_size.into()];
             device.read_exact(&mut buf)?;
             group_descriptors.push(BlockGroupDescriptor::new(buf))
         }
-- 
2.43.0


From 4a4f138b15d61c8ff324ae0856f7d8459bfce92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 24/24] fix: find the group descriptors of filesystems with
 meta block groups

---
 src/ext4/fs.rs | 80 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 11 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index c006a33..4b682d0 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -3,7 +3,9 @@ use crate::ext::LongMul;
 use crate::ext4::block_group::BlockGroupDescriptor;
 use crate::ext4::file::Ext4File;
 use crate::ext4::inode::Inode;
-use crate::ext4::superblock::{CreatorOs, IncompatibleFeatures, Superblock};
+use crate::ext4::superblock::{
+    CompatibleFeatures, CreatorOs, IncompatibleFeatures, ReadOnlyCompatibleFeatures, Superblock,
+};
 use crate::ext4::units::{FsBlockNumber, InodeCount, InodeNumber};
 use bitflags::Flags;
 use std::io;
@@ -57,17 +59,30 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
-        let group_count = u32::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
-        // Group descriptors follow the block that contains the superblock. That
-        // is not always the first data block: if clusters are larger than
-        // blocks of 1 KiB then the first data block is 0.
-        let group_descriptors_block_number = 1024 / superblock.block_size_bytes() + 1;
-        device.seek(SeekFrom::Start(
-            group_descriptors_block_number * superblock.block_size_bytes(),
-        ))?;
+        // The blocks before the first data block belong to no group.
+        let group_count = u32::try_from(
+            u64::from(block_count)
+                .saturating_sub(u64::from(superblock.first_data_block()))
+                .div_ceil(blocks_per_group),
+        )
+        .or(Err(io::ErrorKind::Unsupported))?;
+        let descriptors_per_block =
+            u32::try_from(superblock.block_size_bytes() / u64::from(group_size))
+                .or(Err(io::ErrorKind::Unsupported))?;
         let mut group_descriptors = Vec::new();
-        for _ in 0..group_count {
+        for group in 0..group_count {
+            if group % descriptors_per_block == 0 {
+                let block = group_descriptors_block_number(
+                    &superblock,
+                    group,
+                    group / descriptors_per_block,
+                );
+                device.seek(SeekFrom::Start(
+                    block
+                        .checked_mul(superblock.block_size_bytes())
+                        .ok_or(io::ErrorKind::InvalidData)?,
+                ))?;
+            }
             let mut buf = vec![0u8; group_size.into()];
             device.read_exact(&mut buf)?;
             group_descriptors.push(BlockGroupDescriptor::new(buf))
@@ -148,6 +163,49 @@ where
     }
 }
 
+/// The number of the block that begins with the descriptor of the given group.
+///
+/// `index` is the number of blocks of descriptors before it.
+fn group_descriptors_block_number(superblock: &Superblock<Vec<u8>>, group: u32, index: u32) -> u64 {
+    if index == 0
+        || index < superblock.first_meta_block_group()
+        || !superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::HAS_META_BLOCK_GROUPS)
+    {
+        // Group descriptors follow the block that contains the superblock. That
+        // is not always the first data block: if clusters are larger than
+        // blocks of 1 KiB then the first data block is 0.
+        1024 / superblock.block_size_bytes() + 1 + u64::from(index)
+    } else {
+        // Each meta block group begins with its own block of descriptors, unless
+        // there is a copy of the superblock before it.
+        u64::from(superblock.first_data_block())
+            + group.long_mul(superblock.blocks_per_group())
+            + u64::from(group_has_superblock(superblock, group))
+    }
+}
+
+/// Whether the given group, which is not the first, begins with a copy of the
+/// superblock.
+fn group_has_superblock(superblock: &Superblock<Vec<u8>>, group: u32) -> bool {
+    if superblock
+        .compatible_features()
+        .contains(CompatibleFeatures::SPARSE_SUPERBLOCK_V2)
+    {
+        superblock.superblock_backup_block_groups().contains(&group)
+    } else if superblock
+        .read_only_compatible_features()
+        .contains(ReadOnlyCompatibleFeatures::SPARSE_SUPERBLOCKS)
+    {
+        [3, 5, 7]
+            .iter()
+            .any(|&base| group == u32::pow(base, group.ilog(base)))
+    } else {
+        true
+    }
+}
+
 #[cfg(test)]
 pub(in crate::ext4) mod test {
     use crate::block_device::{BlockSize, InMemoryBlockDevice};
-- 
2.43.0

