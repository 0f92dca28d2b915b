From a7f201dd569863d8ea40efc0bf9208214337fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 01/29] fix: size cluster tail offsets after the stored size
 too

The compressed data may need more bytes than the raw data; its size was
written truncated, and the cluster could not be read back.
---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..26e2c33 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // Compressed data may be bigger than the original data.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 9bcc9ca754150b38e12d30742a20c887d34c0d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 02/29] fix: count the check block in the size of a container
 pack

The declared size was 5 bytes short of the pack, so a container found from
its tail (at the end of another file) was cut at the wrong place.
---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..f92f26f 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size =
+            Size::from(check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE);
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From d8c754bc8f36e2712502a44e8593f0171f593f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 03/29] fix: open a container embedded at the end of another
 file

The blind open required the beginning of the file to parse as a pack header
before it looked at the tail; also refuse files too small to hold a header.
---
 src/reader/jubako.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..8d833dc 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -36,20 +36,33 @@ pub struct Container {
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
+    let tail_size = Size::from(PackHeader::BLOCK_SIZE);
+    if reader.size() < tail_size {
+        return Err(format_error!("File is too small to be a Jubako file"));
+    }
     // Check at beginning
-    // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
+        Err(header_error) => {
             //Check at end
-            let mut buffer_reader = [0u8; 64];
+            let mut buffer_reader = [0u8; PackHeader::BLOCK_SIZE];
             reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
+                .create_stream((reader.size() - tail_size).into(), tail_size, false)?
                 .read_exact(&mut buffer_reader)?;
             buffer_reader.reverse();
             let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+            let pack_header = match end_reader.parse_block_at::<PackHeader>(Offset::zero()) {
+                Ok(pack_header) => pack_header,
+                Err(_) => {
+                    // There is no pack here. Explain why nothing starts at the beginning,
+                    // without Check first as we want a nice message to the user if version has changed.
+                    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+                    return Err(header_error);
+                }
+            };
+            if pack_header.file_size > reader.size() {
+                return Err(format_error!("Pack is bigger than the file containing it"));
+            }
             let origin = reader.size() - pack_header.file_size;
             (pack_header, origin.into())
         }
-- 
2.43.0


From 654ed142412f704b20191ede29a118d75818f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 04/29] fix: look a pack up by identity in the file at its
 recorded location

The file system locator ignored the uuid and returned the whole file: a pack
within a container pack (two files and separate packagings) could not be
opened, and any other file found there was taken for the pack.
---
 src/reader/locator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..a331de1 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,13 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The file may be the pack itself or a container pack with the pack within,
+            // and it may be something else than the pack we are looking for.
+            let container_pack = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
+            Ok(container_pack.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From a1beea3fdf8f283d5dd52680fe7e15f43738e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 05/29] fix: let the tools open a container embedded at the end
 of another file

---
 src/reader/mod.rs | 1 +
 src/tools.rs      | 7 +------
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 0f003f0..f9aeabc 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -10,6 +10,7 @@ mod locator;
 mod manifest_pack;
 mod missing;
 
+pub(crate) use self::jubako::open_as_container_pack;
 pub use self::jubako::Container;
 pub use container_pack::ContainerPack;
 pub use content_pack::ContentPack;
diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..063260c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -27,12 +27,7 @@ pub fn concat(infiles: &[impl AsRef<Path>], outfile: impl AsRef<Utf8Path>) -> jb
 }
 
 pub fn open_pack(path: impl AsRef<Path>) -> jbk::Result<ContainerPack> {
-    let reader = Reader::from(FileSource::open(path.as_ref())?);
-    let pack_header = reader.parse_block_at::<jbk::common::PackHeader>(Offset::zero())?;
-    Ok(match pack_header.magic {
-        jbk::common::PackKind::Container => ContainerPack::new(reader)?,
-        _ => ContainerPack::new_fake(reader, pack_header.uuid),
-    })
+    jbk::reader::open_as_container_pack(Reader::from(FileSource::open(path.as_ref())?))
 }
 
 pub fn set_location(
-- 
2.43.0


From 19655c9394e316fd9d1d69780aaf0c375d163c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 06/29] fix: report a directory pack that cannot be found
 instead of panicking

---
 src/reader/jubako.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 8d833dc..d0a3350 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -118,7 +118,9 @@ impl Container {
         let directory_pack = Arc::new(DirectoryPack::new(
             locator
                 .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
+                .ok_or_else(|| -> Error {
+                    format_error!("Impossible to locate the directory_pack")
+                })?,
         )?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
-- 
2.43.0


From 696b66bd4076670aa9fc189e1a43270a7dc06df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 07/29] fix: size signed columns for their sign and for
 negative values

---
 src/creator/directory_pack/schema/property.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..f789ab2 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -3,6 +3,13 @@ use super::{EntryTrait, PropertyName, StoreHandle, Value, ValueStoreKind, Varian
 use crate::bases::*;
 use std::cmp;
 
+/// A unsigned value needing exactly as many bytes as the two's complement
+/// representation of `value`, sign bit included.
+fn signed_extent(value: i64) -> u64 {
+    let magnitude = if value < 0 { !value } else { value };
+    (magnitude as u64) << 1
+}
+
 pub enum PropertySize<T> {
     Fixed(ByteSize),
     Auto(T),
@@ -96,7 +103,8 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        // The size is computed on the values returned by `signed_extent`.
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +250,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_extent(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_extent(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 14c446ac9db5a4c9bb7d94c1fd82d5f209e6ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 08/29] fix: accept variants ending with properties that take
 no space in the entry

---
 src/reader/directory_pack/layout/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..5791520 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -135,7 +135,7 @@ impl Parsable for Layout {
             let mut variants_map = HashMap::new();
             let mut variant_def = Vec::new();
             let mut variant_name: Option<SmallString> = None;
-            for raw_property in property_iter {
+            while let Some(raw_property) = property_iter.next() {
                 if !raw_property.is_variant_id() && variant_name.is_none() {
                     return Err(format_error!(
                         "Variant definition must start with a VariantId.",
@@ -151,11 +151,11 @@ impl Parsable for Layout {
                 if raw_property.is_variant_id() {
                     // This is a special property
                     variant_name = Some(raw_property.name);
-                    continue;
+                } else {
+                    variant_size += raw_property.size;
+                    variant_def.push(raw_property);
                 }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
+                match (common_size + variant_size).cmp(&entry_size) {
                     Ordering::Greater => {
                         return Err(format_error!(
                             &format!(
@@ -165,6 +165,13 @@ impl Parsable for Layout {
                         ))
                     }
                     Ordering::Equal => {
+                        // Properties stored as default take no space in the entry.
+                        // They are still part of this variant.
+                        while let Some(p) =
+                            property_iter.next_if(|p| p.size == 0 && !p.is_variant_id())
+                        {
+                            variant_def.push(p);
+                        }
                         variants.push(Properties::new(common_size, variant_def).into());
                         variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
                         variant_def = Vec::new();
@@ -177,7 +184,7 @@ impl Parsable for Layout {
                     }
                 }
             }
-            if !variant_def.is_empty() {
+            if variant_name.is_some() {
                 return Err(format_error!("We cannot have left over variant definiton."));
             }
             if variants.len() != variant_count.into_usize() {
-- 
2.43.0


From 348f8a06ea45d855036d6af87845b1652a28fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 09/29] fix: refuse to write a tail too big for its sized
 offset

---
 src/creator/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..0005e4d 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,8 +36,19 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
-            let size = stream.write_serializer(serializer)?.into();
-            Ok(SizedOffset { size, offset })
+            let size = stream.write_serializer(serializer)?;
+            if size > u16::MAX as usize {
+                // The size of a tail is stored on 16 bits, see SizedOffset.
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    format!("A tail of {size} bytes cannot be referenced"),
+                )
+                .into());
+            }
+            Ok(SizedOffset {
+                size: size.into(),
+                offset,
+            })
         }
     }
 
-- 
2.43.0


From 719b2dd8baabe3c6a059e714619ca5a067c5317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 10/29] fix: refuse to write a layout with more than 255
 properties or variants

---
 src/creator/directory_pack/layout/entry.rs | 16 ++++++++++++----
 src/creator/directory_pack/schema/mod.rs   |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..d42ad80 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -35,17 +35,25 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> usize {
+        self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>()
     }
 }
 
 impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
+        let count = |count: usize, what: &str| {
+            u8::try_from(count).map_err(|_| {
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    format!("A layout cannot have {count} {what}"),
+                )
+            })
+        };
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
-        written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += ser.write_u8(count(self.variants.len(), "variants")?)?;
+        written += ser.write_u8(count(self.key_count(), "properties")?)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
diff --git a/src/creator/directory_pack/schema/mod.rs b/src/creator/directory_pack/schema/mod.rs
index b249dd1..5f2f878 100644
--- a/src/creator/directory_pack/schema/mod.rs
+++ b/src/creator/directory_pack/schema/mod.rs
@@ -49,7 +49,7 @@ impl<PN: PropertyName, VN: VariantName> Schema<PN, VN> {
         let mut variants_map = HashMap::new();
         for (name, variant) in self.variants {
             variants_layout.push(variant.finalize(Some(name.as_str())));
-            variants_map.insert(name, (variants_layout.len() as u8 - 1).into());
+            variants_map.insert(name, ((variants_layout.len() - 1) as u8).into());
         }
         let entry_size = if variants_layout.is_empty() {
             common_layout.entry_size()
-- 
2.43.0


From 04d563d737b9306231bdfad1395d3b228843a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 11/29] fix: refuse to write a directory pack with more than
 255 value stores

---
 src/creator/directory_pack/directory_pack.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..bf6bc7c 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -59,6 +59,15 @@ impl DirectoryPackCreator {
         info!("======= Finalize creation =======");
 
         info!("----- Finalize value_stores -----");
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "A directory pack cannot have {} value stores",
+                    self.value_stores.len()
+                ),
+            ));
+        }
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
-- 
2.43.0


From aa732aff4b97f165d93c7e255d157b839c9ef61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 12/29] fix: do not wrap around when an index reaches past the
 last possible entry

---
 src/reader/directory_pack/range.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reader/directory_pack/range.rs b/src/reader/directory_pack/range.rs
index 1b1c443..3ab2a66 100644
--- a/src/reader/directory_pack/range.rs
+++ b/src/reader/directory_pack/range.rs
@@ -16,10 +16,12 @@ pub trait RangeTrait {
         builder: &Builder,
         id: EntryIdx,
     ) -> std::result::Result<Option<Builder::Entry>, Builder::Error> {
-        if id.is_valid(*self.count()) {
-            builder.create_entry(self.offset() + id)
-        } else {
-            Ok(None)
+        if !id.is_valid(*self.count()) {
+            return Ok(None);
+        }
+        match self.offset().into_u32().checked_add(id.into_u32()) {
+            Some(idx) => builder.create_entry(idx.into()),
+            None => Ok(None),
         }
     }
 
-- 
2.43.0


From 5de7ce81220578461f1cfdde94fff9e42066e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 13/29] fix: entries with equal sort keys are equal, a store
 sorted on duplicated keys can be finalized

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 73adae2b145bb9cf2ffd7633b6d3925cf639ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 14/29] fix: sort all entry stores before sizing their columns,
 references into a store sorted later were stale

---
 src/creator/directory_pack/directory_pack.rs | 19 ++++++++-
 src/creator/directory_pack/entry_store.rs    | 41 ++++++++++++--------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index bf6bc7c..c0049df 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         info!("----- Finalize value_stores -----");
@@ -72,6 +72,23 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        for entry_store in &mut self.entry_stores {
+            entry_store.sort();
+        }
+        let mut watchdog = 50;
+        while !self.entry_stores.iter().all(|e| e.is_sorted()) {
+            if watchdog == 0 {
+                panic!("Cannot sort entry store");
+            }
+            watchdog -= 1;
+            for entry_store in &mut self.entry_stores {
+                if !entry_store.is_sorted() {
+                    entry_store.sort();
+                }
+            }
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..1a58268 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,16 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Sort the entries (if the schema asks for it) and set their positions.
+    ///
+    /// Sort keys may be the position of other entries, in this store or in another one,
+    /// so a sort may have to be redone once all positions are set.
+    fn sort(&mut self);
+    fn is_sorted(&self) -> bool;
+
+    /// Size the columns and freeze the store.
+    ///
+    /// As the values may be the position of entries of any store, all the stores must be sorted.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,28 +81,25 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
-        set_entry_idx(&mut self.entries);
+    fn sort(&mut self) {
         if let Some(keys) = &self.schema.sort_keys {
-            let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
-            set_entry_idx(&mut self.entries);
-            let mut watchdog = 50;
-            while !self
+            self.entries
+                .par_sort_unstable_by(|a: &Entry, b: &Entry| a.compare(&keys, b));
+        }
+        set_entry_idx(&mut self.entries);
+    }
+
+    fn is_sorted(&self) -> bool {
+        match &self.schema.sort_keys {
+            Some(keys) => self
                 .entries
                 .windows(2)
-                .all(|w| w[0].compare(&keys, &w[1]).is_le())
-            {
-                debug!(".");
-                self.entries.par_sort_unstable_by(compare);
-                set_entry_idx(&mut self.entries);
-                watchdog -= 1;
-                if watchdog == 0 {
-                    panic!("Cannot sort entry store");
-                }
-            }
+                .all(|w| w[0].compare(&keys, &w[1]).is_le()),
+            None => true,
         }
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From eb521f38cbad75898e4aa3f0e395bbcd7a8e667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 15/29] fix: start a stream made from a region at the beginning
 of the region

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..aff9779 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let begin = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, begin)
     }
 }
-- 
2.43.0


From 0e83ac72ee30135178486c0752b00ed913b477a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 16/29] fix: set_location reads the manifest header after the
 whole pack header block

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 063260c..a341e79 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -47,7 +47,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From e786009c647f874d64d6688f736529552831b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 17/29] fix: accept a content pack with the highest pack id

The size of the pack table was computed in u16, so that a container using
pack id 65535 panicked in debug builds and did not know any of its packs
in optimised ones.
---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index d0a3350..a778cc3 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -125,7 +125,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 30788cffbddd1c1ca6ad6e5444a269afe68aa3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 18/29] fix: report compressed data that cannot be decoded

A decoding error made the decompression pool abort the whole process, data
ending too early made it loop forever, and readers waited forever for bytes
that would never come. Readers now get an error.
---
 src/bases/io/compression.rs | 70 +++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..2e34235 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -1,4 +1,5 @@
 use crate::bases::*;
+use log::warn;
 use std::borrow::Cow;
 use std::io::Read;
 use std::mem::ManuallyDrop;
@@ -27,20 +28,40 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+/// What has been decoded so far.
+#[derive(Clone, Copy)]
+struct Progress {
+    /// Number of bytes available.
+    size: usize,
+    /// Nothing more will come.
+    ended: bool,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
 
+impl Drop for SyncVecWr {
+    // However we stop decoding, nobody must keep waiting for bytes that will never come.
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.decoded;
+        if let Ok(mut decoded) = lock.lock() {
+            decoded.ended = true;
+        }
+        cvar.notify_all();
+    }
+}
+
 struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -50,17 +71,17 @@ impl SyncVecRd {
     #[inline]
     pub fn wait_while<F>(&self, function: F) -> usize
     where
-        F: Fn(&mut usize) -> bool,
+        F: Fn(&mut Progress) -> bool,
     {
         let (lock, cvar) = &*self.decoded;
         let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        decoded.size
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().size
     }
 
     #[inline]
@@ -77,7 +98,13 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((
+        Mutex::new(Progress {
+            size: 0,
+            ended: false,
+        }),
+        Condvar::new(),
+    ));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -113,13 +140,17 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        uncompressed += read;
         let (lock, cvar) = &*buffer.decoded;
         let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        decoded.size = uncompressed;
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -139,14 +170,25 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                if let Err(e) = decode_to_end(decoder, write_hand, 4 * 1024) {
+                    warn!("Cannot decompress data: {e}");
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        let decoded = self
+            .buffer
+            .wait_while(|d: &mut Progress| d.size < end && !d.ended);
+        if decoded < end {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Compressed data is corrupted",
+            ));
+        }
+        Ok(())
     }
 
     #[inline]
@@ -164,7 +206,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +219,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +237,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From 8624bd9c70b5d20adc0c79400e4a63d5fff6c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 19/29] fix: report a region which is not in its source instead
 of reading out of it

---
 src/bases/block.rs        |  1 +
 src/bases/reader.rs       |  6 +++---
 src/bases/types/range.rs  | 26 ++++++++++++++++++++++++++
 src/reader/byte_region.rs |  4 ++--
 src/reader/byte_slice.rs  |  4 ++--
 5 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 77e8d2a..6b25100 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -35,6 +35,7 @@ pub(crate) fn assert_slice_crc(buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+#[derive(Clone, Copy)]
 pub enum BlockCheck {
     None,
     Crc32,
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..2c3c583 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,7 +98,7 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        let region = self.region.cut_rel(offset, size);
+        let region = self.region.try_cut_rel(offset, size, block_check)?;
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
 
@@ -161,7 +161,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
     }
@@ -176,7 +176,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..5d005f8 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -1,4 +1,5 @@
 use super::{ASize, EntryIdx, Offset, Size};
+use crate::bases::BlockCheck;
 use std::ops::{Add, Sub};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
@@ -60,6 +61,31 @@ impl Region {
         );
         Self::new(begin, end)
     }
+
+    /// Relative cut, as `cut_rel`, of a region (and its check) which may not be there.
+    #[inline]
+    pub(crate) fn try_cut_rel(
+        &self,
+        offset: Offset,
+        size: Size,
+        block_check: BlockCheck,
+    ) -> super::Result<Self> {
+        let full_size = size.into_u64().checked_add(block_check.size() as u64);
+        match full_size.and_then(|s| s.checked_add(offset.into_u64())) {
+            Some(end) if end <= self.size().into_u64() => Ok(self.cut_rel(offset, size)),
+            _ => Err(format_error!(format!(
+                "Out of region. {offset} ({size}) > {}",
+                self.size()
+            ))),
+        }
+    }
+
+    #[inline]
+    pub(crate) fn try_cut_rel_asize(&self, offset: Offset, size: ASize) -> super::Result<ARegion> {
+        let region = self.try_cut_rel(offset, size.into(), BlockCheck::None)?;
+        Ok(ARegion(region))
+    }
+
     #[inline]
     pub(crate) fn cut_rel_asize(&self, offset: Offset, size: ASize) -> ARegion {
         let begin = self.begin() + offset;
diff --git a/src/reader/byte_region.rs b/src/reader/byte_region.rs
index c225ba3..9aa4ce9 100644
--- a/src/reader/byte_region.rs
+++ b/src/reader/byte_region.rs
@@ -52,7 +52,7 @@ impl ByteRegion {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteRegion actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -83,7 +83,7 @@ impl RandomParser for ByteRegion {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
diff --git a/src/reader/byte_slice.rs b/src/reader/byte_slice.rs
index 01c59d5..ca0db5a 100644
--- a/src/reader/byte_slice.rs
+++ b/src/reader/byte_slice.rs
@@ -47,7 +47,7 @@ impl<'s> ByteSlice<'s> {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteSlice actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -72,7 +72,7 @@ impl<'s> RandomParser for ByteSlice<'s> {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
-- 
2.43.0


From d33612746f5c5f6efbe0300e317ae4ddac95e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 20/29] fix: report positions and packs which cannot be right
 instead of panicking

---
 src/bases/types/offset.rs                |  9 +++++++++
 src/common/headers/pack.rs               | 11 +++++++----
 src/reader/container_pack.rs             |  4 +++-
 src/reader/content_pack/cluster.rs       |  2 +-
 src/reader/directory_pack/entry_store.rs | 11 ++++++++---
 src/reader/directory_pack/value_store.rs |  4 +++-
 src/reader/manifest_pack.rs              | 11 +++++++++--
 7 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/bases/types/offset.rs b/src/bases/types/offset.rs
index 3777095..45abc9f 100644
--- a/src/bases/types/offset.rs
+++ b/src/bases/types/offset.rs
@@ -20,6 +20,15 @@ impl Offset {
         self.0 <= s.into_u64()
     }
 
+    /// The offset `s` bytes before this one, if there is such a place.
+    #[inline]
+    pub(crate) fn back(self, s: Size) -> Result<Self> {
+        self.0.checked_sub(s.into_u64()).map(Self).ok_or_else(|| {
+            let e: Error = format_error!(format!("Nothing {s} before {self}"));
+            e
+        })
+    }
+
     #[inline]
     pub fn into_u64(self) -> u64 {
         self.0
diff --git a/src/common/headers/pack.rs b/src/common/headers/pack.rs
index 24094f1..d4acbc8 100644
--- a/src/common/headers/pack.rs
+++ b/src/common/headers/pack.rs
@@ -46,10 +46,13 @@ impl PackHeader {
     }
 
     pub fn check_info_size(&self) -> ASize {
-        let check_info_size = self.file_size.into_u64()
-            - Self::BLOCK_SIZE as u64
-            - self.check_info_pos.into_u64()
-            - BlockCheck::Crc32.size() as u64;
+        // A size of 0 (if positions are not consistent) is not a valid check info.
+        let check_info_size = self
+            .file_size
+            .into_u64()
+            .saturating_sub(Self::BLOCK_SIZE as u64)
+            .saturating_sub(self.check_info_pos.into_u64())
+            .saturating_sub(BlockCheck::Crc32.size() as u64);
         ASize::new(check_info_size as usize)
     }
 }
diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index b440b36..46b11dd 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -76,7 +76,9 @@ impl ContainerPack {
                 PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                 PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                 PackKind::Content => ContentPack::new(reader.clone())?.check()?,
-                PackKind::Container => todo!(),
+                PackKind::Container => {
+                    return Err(format_error!("A container pack cannot contain another one"))
+                }
             };
             if !ok {
                 return Ok(false);
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..bd454df 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -137,7 +137,7 @@ impl DataBlockParsable for Cluster {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (cluster_builder, raw_data_size) = intermediate;
-        let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
+        let reader = reader.cut(header_offset.back(raw_data_size)?, raw_data_size, false)?;
         let reader = if cluster_builder.compression == CompressionType::None {
             assert_eq!(cluster_builder.data_size, raw_data_size);
             ClusterReader::Plain(reader)
diff --git a/src/reader/directory_pack/entry_store.rs b/src/reader/directory_pack/entry_store.rs
index 23d048c..a1e6d4c 100644
--- a/src/reader/directory_pack/entry_store.rs
+++ b/src/reader/directory_pack/entry_store.rs
@@ -57,7 +57,10 @@ impl Parsable for EntryStoreBuilder {
                 let layout = Layout::parse(parser)?;
                 Ok(layout)
             }
-            _ => todo!(),
+            _ => Err(format_error!(
+                &format!("Entry store kind {kind:?} is not supported"),
+                parser
+            )),
         }
     }
 }
@@ -72,12 +75,14 @@ impl DataBlockParsable for EntryStore {
         let entry_reader = if layout.is_entry_checked {
             let data_size =
                 layout.entry_count * (layout.entry_size + BlockCheck::Crc32.size()).into();
-            reader.cut(header_offset - data_size, data_size, false)?
+            reader.cut(header_offset.back(data_size)?, data_size, false)?
         } else {
             let data_size = layout.entry_count * layout.entry_size.into();
             reader
                 .cut_check(
-                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+                    header_offset
+                        .back(data_size)?
+                        .back(BlockCheck::Crc32.size().into())?,
                     data_size,
                     BlockCheck::Crc32,
                 )?
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 325575d..611c7bd 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -152,7 +152,9 @@ impl DataBlockParsable for ValueStore {
     ) -> Result<Self::Output> {
         let (store_builder, data_size) = intermediate;
         let reader = reader.cut_check(
-            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+            header_offset
+                .back(data_size)?
+                .back(BlockCheck::Crc32.size().into())?,
             data_size,
             BlockCheck::Crc32,
         )?;
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..6de9502 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -15,7 +15,12 @@ pub struct PackOffsetsIter {
 
 impl PackOffsetsIter {
     pub fn new(check_info_pos: Offset, pack_count: PackCount) -> Self {
-        let offset = check_info_pos - pack_count * Size::from(PackInfo::BLOCK_SIZE);
+        let infos_size = pack_count * Size::from(PackInfo::BLOCK_SIZE);
+        // If there is not enough place for the pack infos, there is no valid one at offset 0.
+        let offset = check_info_pos
+            .into_u64()
+            .saturating_sub(infos_size.into_u64())
+            .into();
         Self {
             offset,
             left: pack_count.into_u16(),
@@ -71,6 +76,8 @@ impl ManifestPack {
                 }
             }
         }
+        let directory_pack_info = directory_pack_info
+            .ok_or_else(|| -> Error { format_error!("Manifest has no directory pack") })?;
         let vs_posinfo = header.value_store_posinfo;
         let value_store = if !vs_posinfo.is_zero() {
             Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)
@@ -81,7 +88,7 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
-- 
2.43.0


From bd38fbfcec28d5d80ea47d9593f4d14ff8ad11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 21/29] fix: report inconsistent clusters and value stores
 instead of panicking

---
 src/reader/content_pack/cluster.rs       | 12 +++++++++++-
 src/reader/directory_pack/value_store.rs | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index bd454df..f618ffe 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -109,6 +109,12 @@ impl Cluster {
     }
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
+        if index.into_usize() + 1 >= self.blob_offsets.len() {
+            return Err(format_error!(format!(
+                "Blob {index} is not in the cluster ({} blobs)",
+                self.blob_offsets.len() - 1
+            )));
+        }
         self.build_plain_reader()?;
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
@@ -167,6 +173,7 @@ impl Parsable for ClusterBuilder {
         let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
         let uninit = blob_offsets.spare_capacity_mut();
         let mut first = true;
+        let mut previous = Offset::zero();
         for elem in &mut uninit[0..blob_count] {
             let value: Offset = if first {
                 first = false;
@@ -174,7 +181,10 @@ impl Parsable for ClusterBuilder {
             } else {
                 parser.read_usized(header.offset_size)?.into()
             };
-            assert!(value.is_valid(data_size));
+            if value < previous || !value.is_valid(data_size) {
+                return Err(format_error!("Invalid blob offset in cluster", parser));
+            }
+            previous = value;
             elem.write(value);
         }
         unsafe { blob_offsets.set_len(blob_count) }
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 611c7bd..0d5d4b6 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -116,22 +116,24 @@ impl Parsable for ValueStoreBuilder {
                     unimplemented!()
                 };
 
-                // [FIXME] A lot of value means a lot of allocation.
-                // A wrong value here (or a carefully choosen one) may break our program.
-                let mut value_offsets: Vec<Offset> = Vec::with_capacity(value_count + 1);
-                let uninit = value_offsets.spare_capacity_mut();
+                // Do not trust a wrong value to allocate the memory, offsets may be not there.
+                let mut value_offsets: Vec<Offset> =
+                    Vec::with_capacity(value_count.min(0xFFFF) + 1);
                 let mut first = true;
-                for elem in &mut uninit[0..value_count] {
+                let mut previous = Offset::zero();
+                for _ in 0..value_count {
                     let value: Offset = if first {
                         first = false;
                         Offset::zero()
                     } else {
                         parser.read_usized(offset_size)?.into()
                     };
-                    assert!(value.is_valid(data_size));
-                    elem.write(value);
+                    if value < previous || !value.is_valid(data_size) {
+                        return Err(format_error!("Invalid offset in value store", parser));
+                    }
+                    previous = value;
+                    value_offsets.push(value);
                 }
-                unsafe { value_offsets.set_len(value_count) }
                 value_offsets.push(data_size.into());
                 Ok((ValueStoreBuilder::Indexed(value_offsets), data_size))
             }
@@ -184,7 +186,7 @@ impl PlainValueStore {
                 unreachable!("Reader must be from memory")
             }
         } else {
-            panic!("Cannot use unsized with PlainValueStore");
+            Err(format_error!("A value of a plain value store needs a size"))
         }
     }
 }
-- 
2.43.0


From 9ec4c299d19b5c9af41387375ce10d8dca9c5506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 22/29] hook: small clusters under cfg(jubako_verif), to
 explore schedules of many clusters

---
 src/creator/content_pack/cluster.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/creator/content_pack/cluster.rs b/src/creator/content_pack/cluster.rs
index e36b0d9..653a8b4 100644
--- a/src/creator/content_pack/cluster.rs
+++ b/src/creator/content_pack/cluster.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use crate::bases::*;
 use crate::common::ContentInfo;
 use crate::creator::InputReader;
@@ -10,7 +12,11 @@ pub(super) struct ClusterCreator {
 }
 
 pub(crate) const CLUSTER_SIZE: Size = Size::new(1024 * 1024 * 4);
+#[cfg(not(jubako_verif))]
 const MAX_BLOBS_PER_CLUSTER: usize = 0xFFF;
+// Small clusters, so that schedules of a lot of clusters can be explored.
+#[cfg(jubako_verif)]
+const MAX_BLOBS_PER_CLUSTER: usize = 2;
 
 impl ClusterCreator {
     pub fn new(index: ClusterIdx, compressed: bool) -> Self {
-- 
2.43.0


From 0f9f0835a09a5295d1e91a76fe326ef79daeb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 23/29] fix: a creation with an input that can't be read ends
 instead of waiting forever

---
 src/creator/content_pack/clusterwriter.rs | 41 +++++++++++++++--------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 26e2c33..0d4e27b 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -164,23 +164,31 @@ impl ClusterCompressor {
         })
     }
 
+    fn process(&mut self, cluster: ClusterCreator) -> std::io::Result<()> {
+        //[TODO] Avoid allocation. Reuse the data once it is written ?
+        let mut data = Vec::<u8>::with_capacity(1024 * 1024);
+        let mut cursor = std::io::Cursor::new(&mut data);
+        let cluster_idx = cluster.index;
+        let sized_offset = self.compress_cluster(cluster, &mut cursor)?;
+        self.output
+            .send(WriteTask::Compressed(data, sized_offset, cluster_idx))
+            .map_err(|_| std::io::Error::other("The cluster writer has stopped"))
+    }
+
     pub fn run(mut self) -> std::io::Result<()> {
+        let mut result = Ok(());
         while let Ok(cluster) = self.input.recv() {
-            //[TODO] Avoid allocation. Reuse the data once it is written ?
-            let mut data = Vec::<u8>::with_capacity(1024 * 1024);
-            let mut cursor = std::io::Cursor::new(&mut data);
-            let cluster_idx = cluster.index;
-            let sized_offset = self.compress_cluster(cluster, &mut cursor)?;
-            self.output
-                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))
-                .unwrap();
+            // After a failure, we still have to empty the queue.
+            // The creator would wait forever for a place in it otherwise.
+            if result.is_ok() {
+                result = self.process(cluster);
+            }
             let (count, cvar) = &*self.nb_cluster_in_queue;
             let mut count = count.lock().unwrap();
             *count -= 1;
             cvar.notify_one();
         }
-        drop(self.output);
-        Ok(())
+        result
     }
 }
 
@@ -368,9 +376,14 @@ impl<O: OutStream + 'static> ClusterWriterProxy<O> {
     pub fn finalize(self) -> std::io::Result<(O, Vec<Late<SizedOffset>>)> {
         drop(self.dispatch_tx);
         drop(self.fusion_tx);
-        for thread in self.worker_threads {
-            thread.join().unwrap()?;
-        }
-        self.thread_handle.join().unwrap()
+        let results: Vec<_> = self
+            .worker_threads
+            .into_iter()
+            .map(|thread| thread.join().unwrap())
+            .collect();
+        // If the writer has failed, this is why the workers have.
+        let written = self.thread_handle.join().unwrap()?;
+        results.into_iter().collect::<std::io::Result<()>>()?;
+        Ok(written)
     }
 }
-- 
2.43.0


From 750d2825f0ec095d5c6e651a855625f61066b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 24/29] fix: a store id out of range is an error when a damaged
 index is read

---
 src/bases/cache.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bases/cache.rs b/src/bases/cache.rs
index 67fb888..9d5da96 100644
--- a/src/bases/cache.rs
+++ b/src/bases/cache.rs
@@ -1,3 +1,4 @@
+use super::FormatError;
 use std::sync::{Arc, OnceLock};
 
 pub(crate) trait CachableSource<Value> {
@@ -25,8 +26,14 @@ where
         Self { source, values }
     }
 
-    pub fn get(&self, index: Source::Idx) -> Result<&Arc<Value>, Source::Error> {
-        let cache_slot = &self.values[index.into()];
+    pub fn get(&self, index: Source::Idx) -> Result<&Arc<Value>, Source::Error>
+    where
+        Source::Error: From<FormatError>,
+    {
+        let cache_slot = self
+            .values
+            .get(index.into())
+            .ok_or_else(|| FormatError::new("Store id is out of range", None))?;
         if cache_slot.get().is_none() {
             let new_value = self.source.get_value(index)?;
             let _ = cache_slot.set(new_value);
-- 
2.43.0


From cfc42d7c1d104ff7cec59be14aef7a1211eff7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 25/29] fix: a variant id out of range is an error for typed
 variant builders

---
 src/reader/directory_pack/builder/property.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/directory_pack/builder/property.rs b/src/reader/directory_pack/builder/property.rs
index 4eb0d42..9b36bef 100644
--- a/src/reader/directory_pack/builder/property.rs
+++ b/src/reader/directory_pack/builder/property.rs
@@ -86,7 +86,10 @@ impl<T: Copy> PropertyBuilderTrait for VariantIdBuilder<T> {
 
     fn create(&self, parser: &impl RandomParser) -> Result<Self::Output> {
         let raw_id = self.raw_variant_id_builder.create(parser)?;
-        Ok(self.variant_map[raw_id.into_usize()])
+        self.variant_map
+            .get(raw_id.into_usize())
+            .copied()
+            .ok_or_else(|| format_error!("Variant id is out of range"))
     }
 }
 
-- 
2.43.0


From 66dbaa7ab203c432ac6133ef29f0dc73fcb8afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 26/29] fix: comparing entries of a damaged container returns
 an error instead of panicking

---
 src/reader/directory_pack/property_compare.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/reader/directory_pack/property_compare.rs b/src/reader/directory_pack/property_compare.rs
index 0d682e7..a9faf5b 100644
--- a/src/reader/directory_pack/property_compare.rs
+++ b/src/reader/directory_pack/property_compare.rs
@@ -30,16 +30,18 @@ impl<'builder> PropertyCompare<'builder> {
 
 impl CompareTrait for PropertyCompare<'_> {
     fn compare_entry(&self, idx: EntryIdx) -> Result<Ordering> {
-        let entry = self
-            .builder
-            .create_entry(idx)?
-            .expect("idx is valid as `compare_entry` is piloted by a range looping on its entries");
+        let Some(entry) = self.builder.create_entry(idx)? else {
+            return Err(format_error!("Index refers to entries out of its store"));
+        };
         for (name, value) in std::iter::zip(self.property_names.iter(), self.values.iter()) {
-            let ordering = entry
-                .get_value(name)?
-                .expect("Name should be in the entry")
-                .partial_cmp(value)?
-                .expect("Value in the entry correspond to reference value");
+            let Some(entry_value) = entry.get_value(name)? else {
+                return Err(format_error!("Entry has no such property"));
+            };
+            let Some(ordering) = entry_value.partial_cmp(value)? else {
+                return Err(format_error!(
+                    "Property is not of the type it is compared to"
+                ));
+            };
             if ordering.is_ne() {
                 return Ok(ordering);
             }
-- 
2.43.0


From b0995969b10b0dad0fca03775685aa78b920ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 27/29] fix: an index out of a table read from a damaged file
 is an error, also in debug builds

---
 src/bases/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bases/mod.rs b/src/bases/mod.rs
index 27c530e..be2dc0b 100644
--- a/src/bases/mod.rs
+++ b/src/bases/mod.rs
@@ -64,12 +64,12 @@ where
 {
     type OutputType = Result<OutType::Output>;
     fn index(&self, idx: Idx<IdxType>) -> Result<OutType::Output> {
-        debug_assert!(
-            idx.is_valid(self.length),
-            "idx = {:?}, length = {:?}",
-            idx,
-            self.length
-        );
+        if !idx.is_valid(self.length) {
+            return Err(format_error!(format!(
+                "Index {:?} is out of array (length = {:?})",
+                idx, self.length
+            )));
+        }
         let offset = u64::from(idx.into_base()) * self.elem_size.into_u64();
         self.reader
             .parse_in::<OutType>(Offset::from(offset), self.elem_size)
-- 
2.43.0


From 35ace2ccd381f73c63fe6854415d000586dd1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 28/29] fix: the content pack of a container named .jbkc was
 written at the place of the container itself

---
 src/creator/basic_creator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..312850e 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -55,6 +55,10 @@ pub struct BasicCreator {
 fn new_with_extension(path: &Utf8Path, extension: &str) -> Utf8PathBuf {
     let mut buf = path.to_path_buf();
     buf.set_extension(extension);
+    if buf == path {
+        // Two packs cannot be stored at the same place.
+        buf = format!("{path}.{extension}").into();
+    }
     buf
 }
 
-- 
2.43.0


From ffc4c3c11318874725be02cb47a1a9c59d7931f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 29/29] fix: comparing entries fails, it does not panic
 (documentation)

---
 src/reader/directory_pack/builder/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader/directory_pack/builder/mod.rs b/src/reader/directory_pack/builder/mod.rs
index 159a51e..4ba358f 100644
--- a/src/reader/directory_pack/builder/mod.rs
+++ b/src/reader/directory_pack/builder/mod.rs
@@ -116,14 +116,14 @@ impl AnyBuilder {
 
     /// Build a new PropertyCompare to search in a Range.
     ///
-    /// Search will panic if property_name is not in the entry or if value is not of the right type.
+    /// Search will fail if property_name is not in the entry or if value is not of the right type.
     pub fn new_property_compare(&self, property_name: String, value: Value) -> PropertyCompare {
         PropertyCompare::new(self, vec![property_name], vec![value])
     }
 
     /// Build a new PropertyCompare from a set of propertie to search in a Range.
     ///
-    /// Search will panic if property_names are not in the entry or if values are not of the right type.
+    /// Search will fail if property_names are not in the entry or if values are not of the right type.
     pub fn new_multiple_property_compare(
         &self,
         property_names: Vec<String>,
-- 
2.43.0

