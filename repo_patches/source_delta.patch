From 86f124a93afec59c898e1d40d2a18058f2a048c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:24 +0000
Subject: [PATCH 001/136] fix: Chain seeks before the start fail and seeks into
 the first part reposition the second

---
 .../unreal_asset_base/src/containers/chain.rs | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..85d72a0 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -74,24 +74,38 @@ impl<C: Read + Seek> Read for Chain<C> {
     }
 }
 
+fn offset_position(base: u64, offset: i64) -> Result<u64> {
+    base.checked_add_signed(offset).ok_or_else(|| {
+        Error::new(
+            ErrorKind::InvalidInput,
+            "invalid seek to a negative or overflowing position",
+        )
+    })
+}
+
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
         match self.second.as_mut() {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            // a read crossing the boundary continues at the start of the second part
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
                     };
                     Ok(offset)
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
+                SeekFrom::End(offset) => self.seek(SeekFrom::Start(offset_position(
+                    self.first_len + self.second_len,
+                    offset,
+                )?)),
                 SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                    self.seek(SeekFrom::Start(offset_position(self.pos, offset)?))
                 }
             },
             None => self.first.seek(pos),
-- 
2.43.0


From 9cbe458a01901ddf8955b36de0b6d5a0fedeb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:24 +0000
Subject: [PATCH 002/136] fix: IndexedMap keeps insertion indices and positions
 consistent after removals

---
 .../src/containers/indexed_map/mod.rs         | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..e6a025a 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -568,17 +578,19 @@ where
             return &mut self.store[*storage_place];
         }
 
+        // insertion indices are never reused by a live entry, even after removals
+        let insertion_index = self.index_map.keys().next_back().map_or(0, |e| e + 1);
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: insertion_index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(insertion_index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
@@ -680,6 +692,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From f018c9918333a75fdbce2f46f13194db0e675dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:24 +0000
Subject: [PATCH 003/136] fix: IndexedMap equality compares the stored values

---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index e6a025a..d77b097 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -769,15 +769,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.iter().eq(other.iter())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From cd5f96e6176741790612b9d022c420026529bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 004/136] fix: write_fstring counts the terminator of wide
 strings in the returned size

---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From c5a29886292ba2d082592b5008d056b6c44fd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 005/136] fix: read_fstring rejects a length of i32::MIN
 instead of overflowing

---
 unreal_helpers/src/read_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..a76ad19 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -54,7 +54,7 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => (len.wrapping_neg(), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
-- 
2.43.0


From 9af128a8f5b14726a907389bcc70fa1920b0fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 006/136] fix: read_array reads exactly the stored count and
 does not preallocate an untrusted one

---
 unreal_helpers/src/read_ext.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index a76ad19..8451b85 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -43,8 +43,9 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        let len = self.read_u32::<LE>()?;
+        let mut buf = Vec::new();
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
-- 
2.43.0


From af4f9ac75e2168c8faf1f6e76c72bb17d338190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 007/136] fix: Guid parsing rejects non-hexadecimal text
 instead of panicking or accepting signs

---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..aa4c61a 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|e| e.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 586e4b47dc1ae4c7fd8946c9c39652ca87b3f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 008/136] fix: game_to_absolute keeps a dollar sign in the game
 name

---
 unreal_helpers/src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..b496cca 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 lazy_static! {
     static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
@@ -19,7 +19,7 @@ pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
     }
 
     let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
+        .replace(path, NoExpand(&(String::from(game_name) + "/Content/")))
         .to_string();
     let path = Path::new(&path_str);
     match path.extension() {
-- 
2.43.0


From b82888a1d7f67dea425fd083c66640e2c0cc6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 009/136] fix: NameMap lookups stay correct after a name is
 edited in place

---
 .../unreal_asset_base/src/containers/name_map.rs     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..e22ad7d 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -16,6 +16,8 @@ pub struct NameMap {
     name_map_lookup: IndexedMap<u64, i32>,
     /// Name map index list
     name_map_index_list: Vec<String>,
+    /// Were names edited in place, which makes the lookup outdated
+    edited_in_place: bool,
     /// A reference to self
     self_ref: SharedResourceWeakRef<NameMap>,
 }
@@ -26,6 +28,7 @@ impl NameMap {
         SharedResource::new_cyclic(|me| NameMap {
             name_map_lookup: IndexedMap::new(),
             name_map_index_list: Vec::new(),
+            edited_in_place: false,
             self_ref: me.clone(),
         })
     }
@@ -44,6 +47,11 @@ impl NameMap {
 
     /// Search an FName reference
     pub fn search_name_reference(&self, name: &str) -> Option<i32> {
+        if self.edited_in_place {
+            let position = self.name_map_index_list.iter().position(|e| e == name);
+            return position.map(|e| e as i32);
+        }
+
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
@@ -94,6 +102,7 @@ impl NameMap {
 
     /// Get a mutable name reference by an FName map index
     pub fn get_name_reference_mut(&mut self, index: i32) -> &mut String {
+        self.edited_in_place = true;
         &mut self.name_map_index_list[index as usize]
     }
 
@@ -132,8 +141,7 @@ impl CyclicSharedResource<NameMap> for NameMap {
 
 impl PartialEq for NameMap {
     fn eq(&self, other: &Self) -> bool {
-        self.name_map_lookup == other.name_map_lookup
-            && self.name_map_index_list == other.name_map_index_list
+        self.name_map_index_list == other.name_map_index_list
     }
 }
 
-- 
2.43.0


From 1beefeb5d2a21c19c1bddcb8c866979aa14fdb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 010/136] fix: write the timestamp field of version 1 pak
 headers

---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..edde142 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        if pak_version <= PakVersion::Initial {
+            // timestamp
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From 11a0424b5957ed895388c4afc28c851996a7d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 011/136] fix: compressed entries of pak versions 3 and 4 use
 absolute block offsets

---
 unreal_pak/src/entry.rs  |  7 ++++++-
 unreal_pak/src/header.rs | 22 +++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..219a69a 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -101,7 +101,12 @@ where
 
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
-            let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            let mut header_len =
+                Header::calculate_header_len(pak_version, Some(block_count as u32));
+            // old versions store absolute offsets
+            if pak_version < PakVersion::RelativeChunkOffsets {
+                header_len += offset;
+            }
 
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index edde142..3371a24 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -75,20 +75,24 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let base_offset = if pak_version < PakVersion::RelativeChunkOffsets {
+                        offset
+                    } else {
+                        0
+                    };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
                     compression_blocks_inner.push(Block {
-                        start: start_offset,
-                        size: end_offset - start_offset,
+                        start: start_offset
+                            .checked_sub(base_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
+                        size: end_offset
+                            .checked_sub(start_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
                     });
                 }
                 compression_blocks = Some(compression_blocks_inner);
-- 
2.43.0


From 72c62ac3a102d28cfd8588cbd088763a520fb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 012/136] fix: a compression block size of zero is a
 configuration error

---
 unreal_pak/src/entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 219a69a..50c399a 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -99,6 +99,10 @@ where
                 return Err(PakError::configuration_invalid());
             }
 
+            if block_size == 0 {
+                return Err(PakError::configuration_invalid());
+            }
+
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
             let mut header_len =
-- 
2.43.0


From 740fd57e414270c48dee8bc44f11269add75306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 013/136] fix: UE 4.22 paks store their four compression method
 names

---
 unreal_pak/src/compression.rs | 13 ++++++++-----
 unreal_pak/src/index.rs       | 11 ++++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index c6a2e21..b1c8191 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -47,7 +47,7 @@ impl Compression {
         pak_version: PakVersion,
         compression: &CompressionMethods,
     ) -> Self {
-        if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             if compression_method_num == 0 {
                 Compression::None
             } else if compression_method_num <= 5 {
@@ -72,7 +72,7 @@ impl Compression {
     ) -> Result<u32, PakError> {
         match self {
             Self::Known(method) => {
-                if pak_version >= PakVersion::FnameBasedCompressionMethod {
+                if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
                     match compression
                         .0
                         .iter()
@@ -169,9 +169,12 @@ impl CompressionMethods {
         Ok(methods)
     }
 
-    pub fn as_bytes(&self) -> Vec<u8> {
-        // TODO UE4.22 only add 4
-        let num_entries = 5usize;
+    pub fn as_bytes(&self, pak_version: PakVersion) -> Vec<u8> {
+        // UE4.22 only has 4
+        let num_entries = match pak_version {
+            PakVersion::FnameBasedCompressionMethodInitial => 4usize,
+            _ => 5usize,
+        };
 
         let mut buf = Vec::with_capacity(num_entries * 0x20);
         for i in 0..num_entries {
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..ca82521 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -188,7 +188,7 @@ impl Footer {
             reader.seek(SeekFrom::Current(1))?;
         }
 
-        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             CompressionMethods::from_reader(reader)?
         } else {
             CompressionMethods::default()
@@ -251,8 +251,13 @@ impl Footer {
         }
 
         // compression methods
-        if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
-            writer.write_all(footer.compression_methods.as_bytes().as_slice())?;
+        if footer.pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
+            writer.write_all(
+                footer
+                    .compression_methods
+                    .as_bytes(footer.pak_version)
+                    .as_slice(),
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From f9c45671cf37b2a337cd1d9f050996ece99b0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 014/136] fix: an entry naming an empty compression method slot
 is not treated as uncompressed

---
 unreal_pak/src/compression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index b1c8191..d21959f 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -51,7 +51,11 @@ impl Compression {
             if compression_method_num == 0 {
                 Compression::None
             } else if compression_method_num <= 5 {
-                compression.0[compression_method_num as usize - 1]
+                match compression.0[compression_method_num as usize - 1] {
+                    // the entry is compressed with a method that was never declared
+                    Compression::None => Compression::Unknown([0; 0x20]),
+                    method => method,
+                }
             } else {
                 let mut arr = [0; 0x20];
                 arr[0] = compression_method_num as u8;
-- 
2.43.0


From fb4bd76cbf73976a57bd13223e2b854d14ef1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 015/136] fix: paks smaller than the largest footer can be read

---
 unreal_pak/src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index ca82521..ed41fdd 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -162,7 +162,10 @@ impl Footer {
 
         let mut magic_offset = None;
         for offset in possible_offsets {
-            reader.seek(SeekFrom::End(offset))?;
+            if reader.seek(SeekFrom::End(offset)).is_err() {
+                // the file is smaller than this footer
+                continue;
+            }
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
             }
-- 
2.43.0


From 7d946deae2dfa02acd63c0e20dfc3456c3ae7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 016/136] fix: corrupted sizes and counts in a pak are errors
 instead of huge allocations

---
 unreal_pak/src/entry.rs | 19 +++++++++++++------
 unreal_pak/src/index.rs |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 50c399a..4e8a4e5 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -29,12 +29,10 @@ where
 
     match header.compression_method {
         Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
+            read_bytes(reader, header.decompressed_size)
         }
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -42,8 +40,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_bytes(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -55,6 +52,16 @@ where
     }
 }
 
+/// Read `len` bytes without trusting `len` for preallocation
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    reader.take(len).read_to_end(&mut data)?;
+    match data.len() as u64 == len {
+        true => Ok(data),
+        false => Err(PakError::entry_invalid()),
+    }
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index ed41fdd..f84962b 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -28,7 +28,7 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
-- 
2.43.0


From 76c4c216ac17cfd9941f29c1d2989b37235e0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 017/136] fix: encrypted pak entries are reported as
 unsupported instead of returned as ciphertext

---
 unreal_pak/src/entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 4e8a4e5..dfcc6a3 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -27,6 +27,10 @@ where
 
     let header = Header::read(reader, pak_version, compression)?;
 
+    if header.flags.unwrap_or(0) & 1 != 0 {
+        return Err(PakError::enrcryption_unsupported());
+    }
+
     match header.compression_method {
         Compression::None => {
             read_bytes(reader, header.decompressed_size)
-- 
2.43.0


From 3681da9559b6668f35d2ece5ed502a7e8727bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:49 +0000
Subject: [PATCH 018/136] fix: extracting a pak never writes outside of the
 output folder

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..71821df 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // an entry must never end up outside of the output folder
+                        if !Path::new(file_name)
+                            .components()
+                            .all(|e| matches!(e, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Unsafe path in record {i}: {file_name:?}");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 3348cc95070f4961261d1361d20364fa2f29df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 019/136] fix: a pak cut off right behind its footer fields
 does not underflow the compression method count

---
 unreal_pak/src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index d21959f..1e6c245 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -159,7 +159,7 @@ impl CompressionMethods {
         // This is why first the length of the remaining stream is determined and then only
         // the existing bytes read.
         let old_pos = reader.stream_position()?;
-        let remaining_len = reader.seek(SeekFrom::End(0))? - old_pos;
+        let remaining_len = reader.seek(SeekFrom::End(0))?.saturating_sub(old_pos);
         reader.seek(SeekFrom::Start(old_pos))?;
 
         let mut methods = Self::default();
-- 
2.43.0


From 1da328c6ade2436ea0bd81ecba365c0b500fe592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 020/136] fix: packages storing a single chunk id can be read
 and written

---
 unreal_asset/src/asset.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..eb0a7bc 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
@@ -1119,7 +1118,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            cursor.write_i32::<LE>(self.chunk_ids[0])?;
+            cursor.write_i32::<LE>(self.chunk_ids.first().copied().unwrap_or_default())?;
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From 077ccb5f2f521146986b8eaf6886ead6bd55acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 021/136] fix: write the summary of legacy file version -4
 without the UE3 version

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index eb0a7bc..444d0da 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1005,7 +1005,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From fa2f3c00745d936984302fbb0d7c0c2417b06e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 022/136] fix: the compatible engine version of a package is
 written back

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 444d0da..548914f 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1089,7 +1089,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From 3c5b5ab2fda96b295122a7373c61c3143a432066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:39 +0000
Subject: [PATCH 023/136] fix: get_import answers an index behind the import
 table with None

---
 unreal_asset/src/asset.rs                | 4 ++--
 unreal_asset/src/asset_archive_writer.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 548914f..42ca473 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -825,8 +825,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        let index = -(index.index as i64) - 1;
+        if index < 0 || index >= self.imports.len() as i64 {
             return None;
         }
 
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..e018734 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,8 +55,8 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        let index = -(index.index as i64) - 1;
+        if index < 0 || index >= self.imports.len() as i64 {
             return None;
         }
 
-- 
2.43.0


From 156924f795489a7cecdcb9dd2ecd5a8041afb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:39 +0000
Subject: [PATCH 024/136] fix: empty soft package references are kept and the
 stored count matches the list

---
 unreal_asset/src/asset.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 42ca473..fe370a9 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -935,9 +935,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
             for _i in 0..self.soft_package_reference_count as usize {
-                if let Some(reference) = self.read_fstring()? {
-                    soft_package_reference_list.push(reference);
-                }
+                soft_package_reference_list.push(self.read_fstring()?.unwrap_or_default());
             }
             self.soft_package_reference_list = Some(soft_package_reference_list);
         }
@@ -1062,7 +1060,11 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if self.asset_data.object_version >= ObjectVersion::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP
         {
-            cursor.write_i32::<LE>(self.soft_package_reference_count)?;
+            cursor.write_i32::<LE>(
+                self.soft_package_reference_list
+                    .as_ref()
+                    .map_or(self.soft_package_reference_count, |e| e.len() as i32),
+            )?;
             cursor.write_i32::<LE>(asset_header.soft_package_reference_offset)?;
         }
 
@@ -1292,7 +1294,8 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if let Some(ref package_references) = self.soft_package_reference_list {
             for reference in package_references {
-                serializer.write_fstring(Some(reference))?;
+                serializer
+                    .write_fstring(Some(reference.as_str()).filter(|e| !e.is_empty()))?;
             }
         }
 
-- 
2.43.0


From 4d126154ceb14fa70ee0d75e7344c6616f6d2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 025/136] fix: counts in the package summary and export map are
 not trusted for allocations

---
 unreal_asset/src/asset.rs | 43 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index fe370a9..4c68a7c 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -91,6 +91,8 @@ pub struct UAssetExportMapEntry {
     pub serialization_before_create_dependencies: Vec<PackageIndex>,
     /// Dependencies that should be created before this export is created
     pub create_before_create_dependencies: Vec<PackageIndex>,
+    /// Amount of dependencies of each kind stored in the export map
+    dependency_counts: [i32; 4],
 }
 
 impl UAssetExportMapEntry {
@@ -149,14 +151,9 @@ impl UAssetExportMapEntry {
             >= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS
         {
             entry.first_export_dependency_offset = archive.read_i32::<LE>()?;
-            entry.serialization_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.serialization_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
+            for count in &mut entry.dependency_counts {
+                *count = archive.read_i32::<LE>()?;
+            }
         }
 
         Ok(entry)
@@ -312,6 +309,7 @@ impl UAssetExportMapEntry {
                 .serialization_before_create_dependencies
                 .clone(),
             create_before_create_dependencies: b.create_before_create_dependencies.clone(),
+            ..Default::default()
         }
     }
 }
@@ -896,7 +894,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
-        let mut export_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+        let mut export_map = Vec::new();
         if self.export_offset > 0 {
             self.seek(SeekFrom::Start(self.export_offset as u64))?;
             for _i in 0..self.asset_data.summary.export_count {
@@ -910,14 +908,14 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.depends_offset > 0
             || depends_offset_zero_version_range.contains(&self.get_object_version())
         {
-            let mut depends_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+            let mut depends_map = Vec::new();
 
             // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
             if self.depends_offset > 0 {
                 self.seek(SeekFrom::Start(self.depends_offset as u64))?;
             }
 
-            for _i in 0..self.asset_data.summary.export_count as usize {
+            for _i in 0..self.asset_data.summary.export_count {
                 let size = self.read_i32::<LE>()?;
                 let mut data: Vec<i32> = Vec::new();
                 for _j in 0..size {
@@ -929,12 +927,11 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         if self.soft_package_reference_offset > 0 {
-            let mut soft_package_reference_list =
-                Vec::with_capacity(self.soft_package_reference_count as usize);
+            let mut soft_package_reference_list = Vec::new();
 
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
-            for _i in 0..self.soft_package_reference_count as usize {
+            for _i in 0..self.soft_package_reference_count {
                 soft_package_reference_list.push(self.read_fstring()?.unwrap_or_default());
             }
             self.soft_package_reference_list = Some(soft_package_reference_list);
@@ -955,16 +952,20 @@ impl<'a, C: Read + Seek> Asset<C> {
                     entry.first_export_dependency_offset as i64 * size_of::<i32>() as i64,
                 ))?;
 
-                let mut read_deps = |list: &mut Vec<PackageIndex>| -> Result<(), Error> {
-                    for _ in 0..list.capacity() {
+                let mut read_deps = |list: &mut Vec<PackageIndex>, count| -> Result<(), Error> {
+                    for _ in 0..count {
                         list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
                     }
                     Ok(())
                 };
-                read_deps(&mut entry.serialization_before_serialization_dependencies)?;
-                read_deps(&mut entry.create_before_serialization_dependencies)?;
-                read_deps(&mut entry.serialization_before_create_dependencies)?;
-                read_deps(&mut entry.create_before_create_dependencies)?;
+                let [count_0, count_1, count_2, count_3] = entry.dependency_counts;
+                read_deps(
+                    &mut entry.serialization_before_serialization_dependencies,
+                    count_0,
+                )?;
+                read_deps(&mut entry.create_before_serialization_dependencies, count_1)?;
+                read_deps(&mut entry.serialization_before_create_dependencies, count_2)?;
+                read_deps(&mut entry.create_before_create_dependencies, count_3)?;
             }
             self.seek(SeekFrom::Start(self.preload_dependency_offset as u64))?;
         }
@@ -983,7 +984,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
                 let next_starting = match i < (map_len - 1) {
                     true => serial_offsets[i + 1],
-                    false => self.data_length()? - 4,
+                    false => self.data_length()?.saturating_sub(4),
                 };
 
                 let export = self.read_export(base_export, next_starting)?;
-- 
2.43.0


From 0b7de821f64b36de2260dcd1ed7909688950f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 026/136] fix: custom versions of legacy file version -2 are
 recognised as the enum based format

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 4c68a7c..62d545d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -846,7 +846,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
     /// Get custom version serialization format
     pub fn get_custom_version_serialization_format(&self) -> ECustomVersionSerializationFormat {
-        if self.legacy_file_version > 3 {
+        if self.legacy_file_version > -3 {
             return ECustomVersionSerializationFormat::Enums;
         }
         if self.legacy_file_version > -6 {
-- 
2.43.0


From a284e779ddca7fc5d64befc230d856036580f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 027/136] fix: the hash of an empty name in the name table is
 read

---
 unreal_asset/unreal_asset_base/src/reader/archive_reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..875a933 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -109,9 +109,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         }?
         .ok_or_else(|| Error::no_data("name_map_string is None".to_string()))?;
 
-        let hash = match self.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED
-            && !string.is_empty()
-        {
+        let hash = match self.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
             true => self.read_u32::<LE>()?,
             false => 0,
         };
-- 
2.43.0


From ae75d8cf32a848ce65ba09bfa8c8f53d4596a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 028/136] fix: opening a versioned package with an engine
 version does not add custom versions to it

---
 unreal_asset/src/asset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 62d545d..db9b1c0 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -585,7 +585,11 @@ impl<'a, C: Read + Seek> Asset<C> {
         // read custom versions container
         if self.legacy_file_version <= -2 {
             // TODO: support for enum-based custom versions
-            let old_container = self.asset_data.summary.custom_versions.clone();
+            // the custom versions of the engine are only a replacement for the ones missing in an unversioned asset
+            let old_container = match self.asset_data.summary.unversioned {
+                true => self.asset_data.summary.custom_versions.clone(),
+                false => Vec::new(),
+            };
             self.asset_data.summary.custom_versions = self.read_custom_version_container(
                 self.get_custom_version_serialization_format(),
                 Some(&old_container),
-- 
2.43.0


From 6d4151c3501d33e2ebed47dd448797691364fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 029/136] fix: saving a package keeps its previous generations

---
 unreal_asset/src/asset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index db9b1c0..ae50f99 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1081,7 +1081,12 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_guid(&self.package_guid)?;
         cursor.write_i32::<LE>(self.generations.len() as i32)?;
 
-        for _ in 0..self.generations.len() {
+        // only the last generation describes the current state of the package
+        if let Some((_, previous_generations)) = self.generations.split_last() {
+            for generation in previous_generations {
+                cursor.write_i32::<LE>(generation.export_count)?;
+                cursor.write_i32::<LE>(generation.name_count)?;
+            }
             cursor.write_i32::<LE>(self.asset_data.exports.len() as i32)?;
             cursor
                 .write_i32::<LE>(self.name_map.get_ref().get_name_map_index_list().len() as i32)?;
-- 
2.43.0


From 38d717982321221915c607c88aed800ee1abcc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 030/136] fix: names added while exports are written end up in
 the written name table

---
 unreal_asset/src/asset.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index ae50f99..667a42d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1183,6 +1183,23 @@ impl<'a, C: Read + Seek> Asset<C> {
 
     /// Write asset data
     pub fn write_data<W: Read + Seek + Write>(
+        &self,
+        cursor: &mut W,
+        mut uexp_cursor: Option<&mut W>,
+    ) -> Result<(), Error> {
+        loop {
+            let name_count = self.name_map.get_ref().get_name_map_index_list().len();
+            self.write_data_with_current_names(cursor, uexp_cursor.as_deref_mut())?;
+
+            // writing exports may add new names, but they are written behind the name map
+            if self.name_map.get_ref().get_name_map_index_list().len() == name_count {
+                return Ok(());
+            }
+        }
+    }
+
+    /// Write asset data with the names that are currently in the name map
+    fn write_data_with_current_names<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
         uexp_cursor: Option<&mut W>,
-- 
2.43.0


From 2e1616600a89636b5df68cebc673e70dae0996dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:39 +0000
Subject: [PATCH 031/136] fix: all keys a map property removes are kept

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..5635e63 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -155,9 +155,8 @@ impl MapProperty {
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+        for _ in 0..num_keys_to_remove {
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,8 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From 51db1d3e92b7c41d012c4f8184cabd3bc7ae67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:39 +0000
Subject: [PATCH 032/136] fix: the inner tag length of struct arrays matches
 the tag layout of the file version

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..4b9dbdd 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -313,7 +313,9 @@ impl ArrayProperty {
                 asset.seek(SeekFrom::Start(length_loc))?;
                 let length = full_len
                     - 32
-                    - match include_header {
+                    - match asset.get_object_version()
+                        >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
+                    {
                         true => 1,
                         false => 0,
                     };
-- 
2.43.0


From bd0c58077fad8294971263b37b837deff6b8c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:39 +0000
Subject: [PATCH 033/136] fix: the struct guid of struct arrays is written back

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 4b9dbdd..85c35ea 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From c421c74a4158287cdc31af9de076ec155ddf6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:27 +0000
Subject: [PATCH 034/136] fix: a struct array keeps its own name when its inner
 tag is named differently

---
 .../unreal_asset_properties/src/array_property.rs    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 85c35ea..c502a46 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -83,7 +83,6 @@ impl ArrayProperty {
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
         let mut entries = Vec::new();
-        let mut name = name;
 
         let mut struct_length = 1;
         let mut struct_guid = None;
@@ -123,9 +122,10 @@ impl ArrayProperty {
             && !asset.has_unversioned_properties()
         {
             let mut full_type = FName::from_slice("Generic");
+            let mut inner_name = name.clone();
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
-                name = asset.read_fname()?;
-                if name == "None" {
+                inner_name = asset.read_fname()?;
+                if inner_name == "None" {
                     return Ok(ArrayProperty::default());
                 }
 
@@ -160,8 +160,8 @@ impl ArrayProperty {
 
             if num_entries == 0 {
                 dummy_struct = Some(StructProperty::dummy(
-                    name.clone(),
-                    ancestry.with_parent(name.clone()),
+                    inner_name.clone(),
+                    ancestry.with_parent(inner_name.clone()),
                     full_type.clone(),
                     struct_guid,
                 ));
@@ -169,7 +169,7 @@ impl ArrayProperty {
             for _i in 0..num_entries {
                 let data = StructProperty::custom_header(
                     asset,
-                    name.clone(),
+                    inner_name.clone(),
                     new_ancestry.clone(),
                     struct_length,
                     0,
-- 
2.43.0


From 1de42b8d1076390fd033be5222d3ba60d5f56fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 035/136] fix: reading and writing struct properties adds no
 synthetic names to the name table

---
 .../unreal_asset_properties/src/array_property.rs |  2 +-
 .../src/cloth_lod_property.rs                     | 15 +++------------
 .../movie_scene_eval_template_ptr_property.rs     |  2 +-
 ...vie_scene_track_implementation_ptr_property.rs |  2 +-
 .../section_evaluation_data_tree_property.rs      |  5 +----
 5 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index c502a46..2adfbb5 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -155,7 +155,7 @@ impl ArrayProperty {
                 .get_content(|name| asset.get_array_struct_type_override().get_by_key(name))
                 .cloned()
             {
-                full_type = asset.add_fname(&type_override);
+                full_type = FName::new_dummy(type_override, 0);
             }
 
             if num_entries == 0 {
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..9cfb8d0 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -25,10 +25,7 @@ impl MeshToMeshVertData {
     ) -> Result<Self, Error> {
         let position_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("PositionBaryCoordsAndDist"),
+            FName::from_slice("PositionBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -36,10 +33,7 @@ impl MeshToMeshVertData {
 
         let normal_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("NormalBaryCoordsAndDist"),
+            FName::from_slice("NormalBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -47,10 +41,7 @@ impl MeshToMeshVertData {
 
         let tangent_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("TangentBaryCoordsAndDist"),
+            FName::from_slice("TangentBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..79eec17 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..e0770aa 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs b/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
index 22c993b..aeb7db0 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/section_evaluation_data_tree_property.rs
@@ -43,10 +43,7 @@ impl SectionEvaluationTree {
             let (unversioned_header, sorted_properties) = match generate_unversioned_header(
                 writer,
                 node,
-                &writer
-                    .get_name_map()
-                    .get_mut()
-                    .add_fname("SectionEvaluationDataTree"),
+                &FName::from_slice("SectionEvaluationDataTree"),
             )? {
                 Some((a, b)) => (Some(a), Some(b)),
                 None => (None, None),
-- 
2.43.0


From 7adbd244d4623c980c7c4a394b1fe0740574568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 036/136] fix: evaluation template and track implementation
 pointers are written as they are read

---
 .../movies/movie_scene_eval_template_ptr_property.rs | 12 +++++-------
 .../movie_scene_track_implementation_ptr_property.rs | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 79eec17..393c869 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -33,13 +33,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
-        let type_name = StrProperty::new(
-            asset,
-            type_name_fname,
-            new_ancestry.clone(),
-            include_header,
-            0,
-        )?;
+        let type_name = StrProperty::new(asset, type_name_fname, new_ancestry.clone(), false, 0)?;
 
         if type_name.value.is_some() {
             value.push(type_name.into());
@@ -101,6 +95,10 @@ impl PropertyTrait for MovieSceneEvalTemplatePtrProperty {
             }
         }
 
+        if properties.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename && !asset.has_unversioned_properties() {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index e0770aa..0f502ba 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -33,13 +33,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
-        let type_name = StrProperty::new(
-            asset,
-            type_name_fname,
-            new_ancestry.clone(),
-            include_header,
-            0,
-        )?;
+        let type_name = StrProperty::new(asset, type_name_fname, new_ancestry.clone(), false, 0)?;
 
         if type_name.value.is_some() {
             value.push(type_name.into());
@@ -89,6 +83,10 @@ impl PropertyTrait for MovieSceneTrackImplementationPtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
-- 
2.43.0


From d2653604313f9474110028c55b5cf57c3305b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 037/136] fix: a byte map entry is judged by the name it points
 at

---
 unreal_asset/unreal_asset_properties/src/int_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/int_property.rs b/unreal_asset/unreal_asset_properties/src/int_property.rs
index e3dd96f..387e6de 100644
--- a/unreal_asset/unreal_asset_properties/src/int_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/int_property.rs
@@ -315,7 +315,7 @@ impl ByteProperty {
                             .get_name_map_index_list()
                             .len() as i32
                     && name_map_index == 0
-                    && !asset.get_name_reference(name_map_index, |name| name.contains('/'))
+                    && !asset.get_name_reference(name_map_pointer, |name| name.contains('/'))
                 {
                     BytePropertyValue::FName(asset.read_fname()?)
                 } else {
-- 
2.43.0


From efc1ff235b830aaf1e851893a5cb3af2de070316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 038/136] fix: cloth vertex data writes its weight once

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 9cfb8d0..95acf59 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -80,13 +80,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 49a3b2d5040843a515588aeb43a7d9044d1ee47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 039/136] fix: font data writes its sub face index

---
 .../src/slate_core/font_data_property.rs                        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..0e1b92f 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,8 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.unwrap_or_default())?;
         }
         Ok(())
     }
-- 
2.43.0


From 00eebfe3a3d391060b0597a1a2223d1986e8afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 040/136] fix: unique net ids write their size before their
 contents

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..91e4fca 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?;
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From 33bacdcbbd028bebc958b35eca593de9779eae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 041/136] fix: evaluation tree containers read as many items as
 they store

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 7dc29ddfb1afdade936f679b0c95376e27bac7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 042/136] fix: box corners are written without property headers

---
 unreal_asset/unreal_asset_properties/src/vector_property.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/vector_property.rs b/unreal_asset/unreal_asset_properties/src/vector_property.rs
index 54bd823..e00cfbc 100644
--- a/unreal_asset/unreal_asset_properties/src/vector_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/vector_property.rs
@@ -548,8 +548,7 @@ impl PropertyTrait for BoxProperty {
         include_header: bool,
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
     }
@@ -587,8 +586,7 @@ impl PropertyTrait for Box2DProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
 
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
 
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
-- 
2.43.0


From 8051be75d1713be887f2c4b27c418622cc9a2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 043/136] fix: material inputs keep whether their constant is
 used

---
 .../src/material_input_property.rs            | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/material_input_property.rs b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
index aba95b2..6e616eb 100644
--- a/unreal_asset/unreal_asset_properties/src/material_input_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
@@ -32,6 +32,8 @@ pub struct ColorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used
+    pub use_constant: i32,
     /// Color value
     pub value: ColorProperty,
 }
@@ -50,6 +52,8 @@ pub struct ScalarMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used
+    pub use_constant: i32,
     /// Scalar value
     pub value: OrderedFloat<f32>,
 }
@@ -68,6 +72,8 @@ pub struct ShadingModelMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used
+    pub use_constant: i32,
     /// Shading model value
     pub value: u32,
 }
@@ -86,6 +92,8 @@ pub struct VectorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used
+    pub use_constant: i32,
     /// Vector value
     pub value: VectorProperty,
 }
@@ -104,6 +112,8 @@ pub struct Vector2MaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used
+    pub use_constant: i32,
     /// Vector2D value
     pub value: Vector2DProperty,
 }
@@ -188,7 +198,7 @@ impl ColorMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = ColorProperty::new(
             asset,
@@ -204,6 +214,7 @@ impl ColorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -217,7 +228,7 @@ impl PropertyTrait for ColorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -234,7 +245,7 @@ impl ScalarMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = asset.read_f32::<LE>()?;
 
@@ -244,6 +255,7 @@ impl ScalarMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value: OrderedFloat(value),
         })
     }
@@ -257,7 +269,7 @@ impl PropertyTrait for ScalarMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_f32::<LE>(self.value.0)?;
         Ok(exp_len + size_of::<f32>() + size_of::<i32>())
     }
@@ -275,7 +287,7 @@ impl ShadingModelMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = asset.read_u32::<LE>()?;
         Ok(ShadingModelMaterialInputProperty {
             name,
@@ -283,6 +295,7 @@ impl ShadingModelMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -296,7 +309,7 @@ impl PropertyTrait for ShadingModelMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_u32::<LE>(self.value)?;
         Ok(exp_len + size_of::<u32>() + size_of::<i32>())
     }
@@ -314,7 +327,7 @@ impl VectorMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = VectorProperty::new(
             asset,
             name.clone(),
@@ -328,6 +341,7 @@ impl VectorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -341,7 +355,7 @@ impl PropertyTrait for VectorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -359,7 +373,7 @@ impl Vector2MaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = Vector2DProperty::new(
             asset,
             name.clone(),
@@ -373,6 +387,7 @@ impl Vector2MaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -386,7 +401,7 @@ impl PropertyTrait for Vector2MaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
-- 
2.43.0


From 22a2d3b6cb207f1ebca4e4a9e4ba0c132e811a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 044/136] fix: plane and 2D box structs are read with their
 native layout

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..d346735 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -245,7 +245,7 @@ macro_rules! impl_property_data_trait {
     };
 }
 
-const CUSTOM_SERIALIZATION: [&str; 57] = [
+const CUSTOM_SERIALIZATION: [&str; 59] = [
     "SkeletalMeshSamplingLODBuiltData",
     "SkeletalMeshAreaWeightedTriangleSampler",
     "SmartName",
@@ -275,6 +275,8 @@ const CUSTOM_SERIALIZATION: [&str; 57] = [
     "Rotator",
     "Vector2D",
     "Box",
+    "Box2D",
+    "Plane",
     "PerPlatformFloat",
     "Vector4",
     "Vector",
-- 
2.43.0


From c7bba1ff6013f76765a457770d6f5ec353e7105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:44 +0000
Subject: [PATCH 045/136] fix: movie scene sequence ids are known by the name
 the engine gives them

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index d346735..c51114c 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -304,7 +304,7 @@ const CUSTOM_SERIALIZATION: [&str; 59] = [
     "MovieSceneSegment",
     "MovieSceneSegmentIdentifier",
     "MovieSceneTrackIdentifier",
-    "MovieSceneSequenceId",
+    "MovieSceneSequenceID",
     "MovieSceneEvaluationKey",
 ];
 
@@ -1298,7 +1298,7 @@ impl Property {
                     duplication_index,
                 )?
                 .into(),
-                "MovieSceneSequenceId" => MovieSceneSequenceIdProperty::new(
+                "MovieSceneSequenceID" => MovieSceneSequenceIdProperty::new(
                     asset,
                     name,
                     ancestry,
@@ -1467,7 +1467,7 @@ property_inner_serialized_name! {
     MovieSceneSegmentProperty: "MovieSceneSegment",
     MovieSceneSegmentIdentifierProperty: "MovieSceneSegmentIdentifier",
     MovieSceneTrackIdentifierProperty: "MovieSceneTrackIdentifier",
-    MovieSceneSequenceIdProperty: "MovieSceneSequenceId",
+    MovieSceneSequenceIdProperty: "MovieSceneSequenceID",
     MovieSceneEvaluationKeyProperty: "MovieSceneEvaluationKey"
 }
 
-- 
2.43.0


From c16e59aceb8bb55b4ddb25a2081453d58fbf951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:48 +0000
Subject: [PATCH 046/136] fix: container elements of unknown type are not
 guessed at

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index c51114c..a817adf 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -1315,6 +1315,13 @@ impl Property {
                 )?
                 .into(),
 
+                // an element of a container doesn't record its size
+                _ if !include_header => {
+                    return Err(Error::invalid_file(format!(
+                        "Unknown container element type {}",
+                        type_name.get_owned_content()
+                    )));
+                }
                 _ => UnknownProperty::new(
                     asset,
                     name,
-- 
2.43.0


From 113b53ec59ab85b8b3f81b3132a470560519a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:14 +0000
Subject: [PATCH 047/136] fix: colors keep their channels in argb order

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From e0939cdf86aef8cc913ca5031a874939ab1332f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:14 +0000
Subject: [PATCH 048/136] fix: unique net ids keep the size they were saved
 with

---
 .../src/game_framework/unique_net_id_property.rs          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 91e4fca..a8c3b70 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -5,6 +5,8 @@ use crate::property_prelude::*;
 /// Unique network id
 #[derive(FNameContainer, Debug, Clone, Default, PartialEq, Eq, Hash)]
 pub struct UniqueNetId {
+    /// Size of the id, computed from the contents if it isn't set
+    pub size: i32,
     /// Type
     pub ty: FName,
     /// Contents
@@ -42,6 +44,7 @@ impl UniqueNetIdProperty {
         let size = asset.read_i32::<LE>()?;
         let value = match size > 0 {
             true => Some(UniqueNetId {
+                size,
                 ty: asset.read_fname()?,
                 contents: asset.read_fstring()?,
             }),
@@ -77,7 +80,10 @@ impl PropertyTrait for UniqueNetIdProperty {
 
                 let end = asset.position();
                 asset.seek(SeekFrom::Start(begin))?;
-                asset.write_i32::<LE>(length as i32)?;
+                asset.write_i32::<LE>(match value.size > 0 {
+                    true => value.size,
+                    false => length as i32,
+                })?;
                 asset.seek(SeekFrom::Start(end))?;
             }
             None => {
-- 
2.43.0


From 98eb86d3c2b9dad1d23c0423fd259fc529e585b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:07 +0000
Subject: [PATCH 049/136] fix: keep exports with an object guid unchanged

---
 .../unreal_asset_exports/src/data_table_export.rs  |  2 +-
 .../unreal_asset_exports/src/enum_export.rs        |  2 +-
 .../unreal_asset_exports/src/level_export.rs       |  2 +-
 .../unreal_asset_exports/src/normal_export.rs      | 14 ++++++++++++++
 .../unreal_asset_exports/src/property_export.rs    |  2 +-
 .../src/string_table_export.rs                     |  2 +-
 .../unreal_asset_exports/src/struct_export.rs      |  2 +-
 .../unreal_asset_exports/src/world_export.rs       |  2 +-
 8 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..69192d9 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -59,7 +59,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
             }
         }
 
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
         let num_entries = asset.read_i32::<LE>()? as usize;
         let mut data = Vec::with_capacity(num_entries);
 
diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 1d24756..560af6c 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -148,7 +148,7 @@ impl<Index: PackageIndexTrait> EnumExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
 
         let value = UEnum::new(asset)?;
         Ok(EnumExport {
diff --git a/unreal_asset/unreal_asset_exports/src/level_export.rs b/unreal_asset/unreal_asset_exports/src/level_export.rs
index a450329..53f26fb 100644
--- a/unreal_asset/unreal_asset_exports/src/level_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/level_export.rs
@@ -68,7 +68,7 @@ impl<Index: PackageIndexTrait> LevelExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(unk, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
 
         Ok(LevelExport {
             normal_export,
diff --git a/unreal_asset/unreal_asset_exports/src/normal_export.rs b/unreal_asset/unreal_asset_exports/src/normal_export.rs
index 99c41d1..08c301d 100644
--- a/unreal_asset/unreal_asset_exports/src/normal_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/normal_export.rs
@@ -1,5 +1,7 @@
 //! Normal export
 
+use byteorder::{ReadBytesExt, LE};
+
 use unreal_asset_base::{
     reader::{ArchiveReader, ArchiveWriter},
     types::PackageIndexTrait,
@@ -67,6 +69,18 @@ impl<Index: PackageIndexTrait> NormalExport<Index> {
             properties,
         })
     }
+
+    /// Read the flag that tells if the object has a guid, exports with guids aren't supported
+    pub(crate) fn read_object_guid_flag<Reader: ArchiveReader<Index>>(
+        asset: &mut Reader,
+    ) -> Result<(), Error> {
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented(
+                "Exports with an object guid are not supported".to_string(),
+            ));
+        }
+        Ok(())
+    }
 }
 
 impl<Index: PackageIndexTrait> ExportTrait<Index> for NormalExport<Index> {
diff --git a/unreal_asset/unreal_asset_exports/src/property_export.rs b/unreal_asset/unreal_asset_exports/src/property_export.rs
index 36a18b9..dff1c5a 100644
--- a/unreal_asset/unreal_asset_exports/src/property_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/property_export.rs
@@ -34,7 +34,7 @@ impl<Index: PackageIndexTrait> PropertyExport<Index> {
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
 
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
 
         let export_class_type = asset
             .get_export_class_type(normal_export.base_export.class_index)
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 8bb2bcd..9e0555c 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -33,7 +33,7 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
 
         let namespace = asset.read_fstring()?;
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..87ec617 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -51,7 +51,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
diff --git a/unreal_asset/unreal_asset_exports/src/world_export.rs b/unreal_asset/unreal_asset_exports/src/world_export.rs
index 6f0dccc..e60e698 100644
--- a/unreal_asset/unreal_asset_exports/src/world_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/world_export.rs
@@ -39,7 +39,7 @@ impl<Index: PackageIndexTrait> WorldExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_object_guid_flag(asset)?;
         Ok(WorldExport {
             normal_export,
             persistent_level: PackageIndex::new(asset.read_i32::<LE>()?),
-- 
2.43.0


From da816c89c51f4cbbf86e7732447780a4ef37c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:07 +0000
Subject: [PATCH 050/136] fix: structs before RemoveUfieldNext have a pointer
 to their first child

---
 .../unreal_asset_exports/src/struct_export.rs | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 87ec617..fb426e8 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -5,7 +5,7 @@ use std::io::SeekFrom;
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 
 use unreal_asset_base::{
-    custom_version::FCoreObjectVersion,
+    custom_version::{FCoreObjectVersion, FFrameworkObjectVersion},
     engine_version::EngineVersion,
     reader::{ArchiveReader, ArchiveWriter},
     types::{PackageIndex, PackageIndexTrait},
@@ -55,11 +55,17 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
-        let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
-        for _i in 0..num_index_entries as usize {
-            children.push(PackageIndex::new(asset.read_i32::<LE>()?));
-        }
+        let children = match asset
+            .get_custom_version::<FFrameworkObjectVersion>()
+            .version
+            < FFrameworkObjectVersion::RemoveUfieldNext as i32
+        {
+            true => match asset.read_i32::<LE>()? {
+                0 => Vec::new(),
+                first_child => vec![PackageIndex::new(first_child)],
+            },
+            false => asset.read_array(|asset| Ok(PackageIndex::new(asset.read_i32::<LE>()?)))?,
+        };
 
         let loaded_properties = match asset.get_custom_version::<FCoreObjectVersion>().version
             >= FCoreObjectVersion::FProperties as i32
@@ -129,9 +135,18 @@ impl<Index: PackageIndexTrait> ExportTrait<Index> for StructExport<Index> {
         self.field.write(asset)?;
 
         asset.write_i32::<LE>(self.super_struct.index)?;
-        asset.write_i32::<LE>(self.children.len() as i32)?;
-        for child in &self.children {
-            asset.write_i32::<LE>(child.index)?;
+        if asset
+            .get_custom_version::<FFrameworkObjectVersion>()
+            .version
+            < FFrameworkObjectVersion::RemoveUfieldNext as i32
+        {
+            // only the first child is serialized, the others are linked through UField
+            asset.write_i32::<LE>(self.children.first().map_or(0, |e| e.index))?;
+        } else {
+            asset.write_i32::<LE>(self.children.len() as i32)?;
+            for child in &self.children {
+                asset.write_i32::<LE>(child.index)?;
+            }
         }
 
         if asset.get_custom_version::<FCoreObjectVersion>().version
-- 
2.43.0


From 8d7efa06c4e35261d78d96dd446466c734e0807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:07 +0000
Subject: [PATCH 051/136] fix: read bool property exports

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From d92f43b4735614cc54ada6b7a9653e7a1fb025d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:07 +0000
Subject: [PATCH 052/136] fix: property exports with an unknown replication
 condition couldn't be written

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index 77584c9..891c144 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -299,7 +299,7 @@ impl UGenericProperty {
             match asset.get_custom_version::<FReleaseObjectVersion>().version
                 >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32
             {
-                true => asset.read_u8()?.try_into().ok(),
+                true => Some(asset.read_u8()?.try_into()?),
                 false => None,
             };
 
-- 
2.43.0


From 43eda66a4a8b58d5de00451b8b075c151456419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:38 +0000
Subject: [PATCH 053/136] fix: script bytecode could be read past its end

---
 unreal_asset/unreal_asset_exports/src/struct_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index fb426e8..76439f5 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -124,6 +124,11 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         while (asset.position() - start_offset) < storage_size as u64 {
             code.push(KismetExpression::new(asset)?);
         }
+        if (asset.position() - start_offset) != storage_size as u64 {
+            return Err(Error::invalid_file(
+                "Script bytecode doesn't end with a whole expression".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0


From 63bbe8a753c3a24c6be4020d845f03a0e33f65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 054/136] fix: in memory size of ExAssert

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From 194b6a95eb271e34b963754e78799aa2167e45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 055/136] fix: in memory size of inline ExInstrumentationEvent

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..25b42e5 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -3274,7 +3274,7 @@ impl KismetExpressionTrait for ExInstrumentationEvent {
             asset.write_fname(self.event_name.as_ref().ok_or_else(|| {
                 Error::no_data("event_type is InlineEvent but event_name is None".to_string())
             })?)?;
-            return Ok(1 + 2 * size_of::<i32>());
+            return Ok(1 + 12); // FScriptName's iCode offset
         }
 
         Ok(1)
-- 
2.43.0


From 64d01876d6878b2d67bcf2f2e0e021e8a4be2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:52 +0000
Subject: [PATCH 056/136] fix: kismet map instructions store the number of
 pairs

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 25b42e5..c2f7f58 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2533,7 +2533,7 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2952,7 +2952,7 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From a41974a73853ababfd0ec0ce2249de403e7b0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:34 +0000
Subject: [PATCH 057/136] fix: don't allocate memory for counts read from a
 file before reading the elements

---
 .../unreal_asset_base/src/reader/archive_reader.rs        | 8 ++++----
 unreal_asset/unreal_asset_base/src/unversioned/header.rs  | 2 +-
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs     | 8 ++++----
 unreal_asset/unreal_asset_exports/src/class_export.rs     | 4 ++--
 .../unreal_asset_exports/src/data_table_export.rs         | 2 +-
 unreal_asset/unreal_asset_exports/src/struct_export.rs    | 2 +-
 unreal_asset/unreal_asset_kismet/src/lib.rs               | 4 ++--
 .../unreal_asset_properties/src/cloth_lod_property.rs     | 5 ++---
 .../unreal_asset_properties/src/delegate_property.rs      | 2 +-
 .../src/gameplay_tag_container_property.rs                | 2 +-
 .../src/movies/movie_scene_evaluation.rs                  | 4 ++--
 .../src/movies/movie_scene_float_channel_property.rs      | 4 ++--
 .../src/movies/movie_scene_segment_property.rs            | 2 +-
 .../unreal_asset_properties/src/per_platform_property.rs  | 6 +++---
 .../unreal_asset_properties/src/sampler_property.rs       | 8 ++++----
 .../unreal_asset_properties/src/world_tile_property.rs    | 2 +-
 unreal_asset/unreal_asset_registry/src/lib.rs             | 4 ++--
 .../unreal_asset_registry/src/objects/depends_node.rs     | 6 +++---
 18 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 875a933..dec8382 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -129,7 +129,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
 
         let hashes = match hash_version {
             hash if hash == enums::HASH_VERSION_CITYHASH64 => {
-                let mut hashes = Vec::with_capacity(num_strings as usize);
+                let mut hashes = Vec::new();
                 for _ in 0..num_strings {
                     hashes.push(self.read_u64::<LE>()?); // cityhash64 of crc::to_lower_string
                 }
@@ -141,12 +141,12 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
             ))),
         }?;
 
-        let mut name_headers = Vec::with_capacity(num_strings as usize);
+        let mut name_headers = Vec::new();
         for _ in 0..num_strings {
             name_headers.push(SerializedNameHeader::read(self)?);
         }
 
-        let mut name_batch = Vec::with_capacity(num_strings as usize);
+        let mut name_batch = Vec::new();
 
         for name_header in name_headers {
             name_batch.push(self.read_name_map_string(Some(name_header)).map(|e| e.0)?);
@@ -194,7 +194,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        let mut array = Vec::new();
         for _ in 0..length {
             array.push(getter(self)?);
         }
diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..f5c0837 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -117,7 +117,7 @@ impl UnversionedHeader {
             Ok(BitVec::from_vec(data.to_vec()))
         } else {
             let num_bytes = ((num_bits + 31) / 32) * 4;
-            let mut data = Vec::with_capacity(num_bytes as usize);
+            let mut data = Vec::new();
             for _ in 0..num_bytes {
                 data.push(asset.read_u8()?);
             }
diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..3667098 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -101,7 +101,7 @@ impl UsmapSchema {
         let prop_count = reader.read_u16::<LE>()?;
         let serializable_property_count = reader.read_u16::<LE>()?;
 
-        let mut properties = IndexedMap::with_capacity(prop_count as usize);
+        let mut properties = IndexedMap::new();
 
         for _ in 0..serializable_property_count {
             let property = UsmapProperty::new(reader)?;
@@ -339,7 +339,7 @@ impl Usmap {
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -347,7 +347,7 @@ impl Usmap {
             let enum_name = reader.read_name()?;
 
             let enum_names_len = reader.read_u8()?;
-            let mut enum_names = Vec::with_capacity(enum_names_len as usize);
+            let mut enum_names = Vec::new();
 
             for _ in 0..enum_names_len {
                 enum_names.push(reader.read_name()?);
@@ -357,7 +357,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..d4afdcc 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -79,7 +79,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         let struct_export = StructExport::from_base(base, asset)?;
 
         let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
+        let mut func_map = IndexedMap::new();
         for _i in 0..num_func_index_entries {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
@@ -118,7 +118,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
             asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
         }
         let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
+        let mut interfaces = Vec::new();
         for _i in 0..num_interfaces {
             interfaces.push(SerializedInterfaceReference::new(
                 PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 69192d9..9822223 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -61,7 +61,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
 
         NormalExport::read_object_guid_flag(asset)?;
         let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
+        let mut data = Vec::new();
 
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 76439f5..406d95d 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -72,7 +72,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         {
             true => {
                 let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
+                let mut props = Vec::new();
                 for _i in 0..num_props as usize {
                     props.push(FProperty::new(asset)?);
                 }
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index c2f7f58..c3ecdd9 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -762,7 +762,7 @@ impl KismetPropertyPointer {
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
             let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
+            let mut names = Vec::new();
             for _i in 0..num_entries as usize {
                 names.push(asset.read_fname()?);
             }
@@ -3117,7 +3117,7 @@ impl ExSwitchValue {
         let end_goto_offset = asset.read_u32::<LE>()?;
         let index_term = Box::new(KismetExpression::new(asset)?);
 
-        let mut cases = Vec::with_capacity(num_cases as usize);
+        let mut cases = Vec::new();
         for _i in 0..num_cases as usize {
             let term_a = KismetExpression::new(asset)?;
             let term_b = asset.read_u32::<LE>()?;
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 95acf59..3bf225e 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -124,14 +124,13 @@ impl ClothLodDataProperty {
         )?;
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
+        let mut transition_up_skin_data = Vec::new();
         for _ in 0..transition_up_skin_data_len {
             transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
 
         let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
+        let mut transition_down_skin_data = Vec::new();
         for _ in 0..transition_down_skin_data_len {
             transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..a5c74a2 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -106,7 +106,7 @@ macro_rules! impl_multicast {
                 let property_guid = optional_guid!(asset, include_header);
 
                 let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
+                let mut value = Vec::new();
                 for _ in 0..length {
                     value.push(Delegate::new(
                         PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..fc085a0 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -31,7 +31,7 @@ impl GameplayTagContainerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
+        let mut value = Vec::new();
         for _i in 0..length as usize {
             value.push(asset.read_fname()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index cd38712..e9c7e59 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -136,14 +136,14 @@ where
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
         let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
+        let mut entries = Vec::new();
 
         for _ in 0..entries_amount {
             entries.push(FEntry::new(asset)?);
         }
 
         let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
+        let mut items = Vec::new();
 
         for _ in 0..items_amount {
             items.push(item_reader(asset)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..47f493f 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -46,7 +46,7 @@ impl MovieSceneFloatChannel {
         let times_struct_length = asset.read_i32::<LE>()?;
         let times_length = asset.read_i32::<LE>()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
+        let mut times = Vec::new();
         for _ in 0..times_length {
             times.push(FrameNumber::new(asset.read_i32::<LE>()?));
         }
@@ -54,7 +54,7 @@ impl MovieSceneFloatChannel {
         let values_struct_length = asset.read_i32::<LE>()?;
         let values_length = asset.read_i32::<LE>()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
+        let mut values = Vec::new();
         for _ in 0..values_length {
             //todo: clangwin64 is always false?
             values.push(MovieSceneFloatValue::new(asset, false)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..ad1bc93 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -60,7 +60,7 @@ impl MovieSceneSegment {
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
         let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
+        let mut impls = Vec::new();
 
         for _ in 0..impls_length {
             let mut properties_list = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..8392d05 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -63,7 +63,7 @@ impl PerPlatformBoolProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_bool()?);
@@ -107,7 +107,7 @@ impl PerPlatformIntProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_i32::<LE>()?);
@@ -151,7 +151,7 @@ impl PerPlatformFloatProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(OrderedFloat(asset.read_f32::<LE>()?));
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..c199c44 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -71,13 +71,13 @@ impl WeightedRandomSamplerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
@@ -135,13 +135,13 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..92ec18b 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -186,7 +186,7 @@ impl FWorldTileInfo {
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
             let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
+            let mut list = Vec::new();
             for _i in 0..num_entries {
                 list.push(FWorldTileLODInfo::new(asset)?);
             }
diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..e9da078 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -72,7 +72,7 @@ impl AssetRegistryState {
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
             let local_num_depends_nodes = asset.read_i32::<LE>()?;
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            *depends_nodes = Vec::new();
 
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
@@ -89,7 +89,7 @@ impl AssetRegistryState {
             let dependency_section_end = asset.position() + dependency_section_size as u64;
             let local_num_depends_nodes = asset.read_i32::<LE>()?;
 
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            *depends_nodes = Vec::new();
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
             }
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..7b4e668 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -224,7 +224,7 @@ impl DependsNode {
             }
         }
 
-        let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
+        let mut out_flag_bits = BitVec::new();
         for write_index in 0..in_dependencies.len() as i32 {
             let read_index = &sort_indexes[write_index as usize];
 
@@ -489,8 +489,8 @@ impl DependsNode {
         };
         let num_referencers = asset.read_i32::<LE>()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From 03a1d9848c4c217dfc9b806787cc5ed6fd1bd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:58 +0000
Subject: [PATCH 058/136] fix: invalid buffer lengths caused huge allocations
 or panics

---
 unreal_asset/src/asset_data.rs                |  4 +---
 .../src/reader/archive_reader.rs              | 19 +++++++++++++++++++
 .../unreal_asset_exports/src/raw_export.rs    |  3 +--
 .../unreal_asset_exports/src/struct_export.rs |  4 +---
 .../movie_scene_event_parameters_property.rs  |  3 +--
 .../src/raw_struct_property.rs                |  3 +--
 .../src/unknown_property.rs                   |  3 +--
 7 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index f51517d..83ed8b7 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -423,9 +423,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                 new_array_overrides,
             ));
         } else if let Some(normal_export) = export.get_normal_export_mut() {
-            let mut extras = vec![0u8; extras_len as usize];
-            self.read_exact(&mut extras)?;
-            normal_export.extras = extras;
+            normal_export.extras = self.read_bytes(extras_len)?;
         }
 
         Ok(ReadExport::new(
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index dec8382..0855fa5 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -177,6 +177,25 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         Ok((name_batch, hash_version))
     }
 
+    /// Read a byte buffer with specified length
+    ///
+    /// The buffer grows while it's being read, so an invalid length results in an error and not in a huge allocation
+    fn read_bytes(&mut self, length: i64) -> Result<Vec<u8>, Error> {
+        const CHUNK: usize = 0x10000;
+
+        let length = usize::try_from(length)
+            .map_err(|_| Error::invalid_file(format!("Invalid data length: {length}")))?;
+
+        let mut data = Vec::new();
+        while data.len() < length {
+            let start = data.len();
+            data.resize(start + CHUNK.min(length - start), 0);
+            self.read_exact(&mut data[start..])?;
+        }
+
+        Ok(data)
+    }
+
     /// Read an array with specified length
     ///
     /// # Examples
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..fb5e77e 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size)?;
 
         Ok(RawExport {
             base_export: base,
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 406d95d..9423eee 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -95,9 +95,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
-                Some(data)
+                Some(asset.read_bytes(script_storage_size as i64)?)
             }
         };
 
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..c454d5e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as i64)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..e65ed90 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..0cfb9b2 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(UnknownProperty {
             name,
-- 
2.43.0


From 7f2e99239e7e6f848580c20c13ef73dd594d3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:59 +0000
Subject: [PATCH 059/136] fix: overflow on an invalid class interface count

---
 unreal_asset/unreal_asset_exports/src/class_export.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d4afdcc..719d7d1 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -102,10 +102,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         {
             interfaces_start = Some(asset.position());
             let num_interfaces = asset.read_i32::<LE>()?;
-            asset.seek(SeekFrom::Start(
-                interfaces_start.unwrap()
-                    + size_of::<i32>() as u64
-                    + num_interfaces as u64 * (size_of::<i32>() as u64 * 3),
+            asset.seek(SeekFrom::Current(
+                num_interfaces as i64 * (size_of::<i32>() as i64 * 3),
             ))?;
         }
 
-- 
2.43.0


From 825183e2649576d8b357df9f5b77fa20a4c9be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:57 +0000
Subject: [PATCH 060/136] fix: names of another asset with an equal name map
 were not rebuilt

---
 unreal_asset/src/asset.rs                          |  2 +-
 .../src/containers/shared_resource.rs              | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 667a42d..b73b37d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1170,7 +1170,7 @@ impl<'a, C: Read + Seek> Asset<C> {
                 return;
             };
 
-            if *name_map != current_name_map {
+            if !name_map.ptr_eq(&current_name_map) {
                 let new_index = current_name_map
                     .get_mut()
                     .add_name_reference(content, false);
diff --git a/unreal_asset/unreal_asset_base/src/containers/shared_resource.rs b/unreal_asset/unreal_asset_base/src/containers/shared_resource.rs
index ba797da..20f56f2 100644
--- a/unreal_asset/unreal_asset_base/src/containers/shared_resource.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/shared_resource.rs
@@ -106,6 +106,20 @@ impl<T> SharedResource<T> {
     }
 }
 
+impl<T: ?Sized> SharedResource<T> {
+    /// Check if two `SharedResource`s share the same value
+    #[cfg(not(feature = "threading"))]
+    pub fn ptr_eq(&self, other: &Self) -> bool {
+        std::rc::Rc::ptr_eq(&self.resource, &other.resource)
+    }
+
+    /// Check if two `SharedResource`s share the same value
+    #[cfg(feature = "threading")]
+    pub fn ptr_eq(&self, other: &Self) -> bool {
+        std::sync::Arc::ptr_eq(&self.resource, &other.resource)
+    }
+}
+
 impl<T: CyclicSharedResource<T> + Clone> SharedResource<T> {
     /// Clone this shared resource with the value inside of it
     pub fn clone_resource(&self) -> SharedResource<T> {
-- 
2.43.0


From 92ed956a60b68838dbc67569325454e105045215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:46 +0000
Subject: [PATCH 061/136] fix: array property entry count that can't fit into
 the property caused huge allocations

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 2adfbb5..9e3a522 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -82,6 +82,11 @@ impl ArrayProperty {
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
+        if !asset.has_unversioned_properties() && i64::from(num_entries) > length {
+            return Err(Error::invalid_file(format!(
+                "Array property with {num_entries} entries doesn't fit into {length} bytes"
+            )));
+        }
         let mut entries = Vec::new();
 
         let mut struct_length = 1;
-- 
2.43.0


From 2ccdbc404b613e01339771bc6f22a7f2368b448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:46 +0000
Subject: [PATCH 062/136] fix: asset registry dependencies before flags were
 checked against the wrong node list

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 7b4e668..6a4ebef 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 0a2edb93e93b3e55275b742646807134a7a69501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:22 +0000
Subject: [PATCH 063/136] fix: asset registry dependency flags were read and
 written incorrectly

---
 .../src/objects/depends_node.rs               | 101 ++++++++----------
 1 file changed, 42 insertions(+), 59 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 6a4ebef..86f448b 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -149,11 +149,8 @@ const SOFT_MANAGE_BITS: u32 = 0x0;
 
 impl DependsNode {
     /// Package `EDependencyProperty` enum into a byte
-    #[allow(clippy::identity_op)] // allow for clarity
     fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
+        (properties & EDependencyProperty::PACKAGE_MASK).bits() as u8
     }
 
     /// Read `DependsNode` dependencies
@@ -161,6 +158,7 @@ impl DependsNode {
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bit: i32,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -203,30 +201,26 @@ impl DependsNode {
         let mut hard_dependencies = Vec::new();
         let mut soft_dependencies = Vec::new();
 
-        for index in &sort_indexes {
-            let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
-                .as_deref()
-                .copied()
-                .unwrap_or(false)
-            {
-                hard_dependencies.push(node.clone());
-            } else {
-                soft_dependencies.push(node.clone());
-            }
+        // flags are stored in the same order as dependencies, hard dependencies first
+        let (hard_indexes, soft_indexes): (Vec<i32>, Vec<i32>) =
+            sort_indexes.into_iter().partition(|index| {
+                in_flag_bits
+                    .get((index * flag_set_width + hard_bit) as usize)
+                    .as_deref()
+                    .copied()
+                    .unwrap_or(false)
+            });
+
+        for index in &hard_indexes {
+            hard_dependencies.push(pointer_dependencies[*index as usize].clone());
+        }
+        for index in &soft_indexes {
+            soft_dependencies.push(pointer_dependencies[*index as usize].clone());
         }
 
-        let mut out_flag_bits = BitVec::new();
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
+        let mut out_flag_bits = BitVec::repeat(false, num_flag_bits as usize);
+        for (write_index, read_index) in hard_indexes.iter().chain(&soft_indexes).enumerate() {
+            let write_index = write_index as i32;
 
             out_flag_bits.set_range_from_range(
                 write_index * flag_set_width,
@@ -248,51 +242,38 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
+        let mut out_flag_bits =
+            BitVec::<u32, Lsb0>::repeat(false, (dependencies_length * flag_set_width) as usize);
 
         writer.write_i32::<LE>(dependencies_length)?;
 
-        for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(hard_dependency.index)?;
+        // flags are stored in the same order as dependencies, hard dependencies first
+        let mut dependencies: Vec<_> = hard_dependencies
+            .iter()
+            .chain(soft_dependencies)
+            .map(|dependency| dependency.index)
+            .enumerate()
+            .collect();
+        dependencies.sort_by_key(|(_, node_index)| *node_index);
 
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                i as i32 * flag_set_width,
-            );
-        }
-
-        let inital_soft_index = hard_dependencies.len() as i32;
+        for (write_index, (read_index, node_index)) in dependencies.into_iter().enumerate() {
+            writer.write_i32::<LE>(node_index)?;
 
-        for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(soft_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
             out_flag_bits.set_range_from_range(
-                index,
+                write_index as i32 * flag_set_width,
                 flag_set_width,
                 flags,
-                (i as i32 + inital_soft_index) * flag_set_width,
+                read_index as i32 * flag_set_width,
             );
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
-
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
+        // the amount of flag words depends on the amount of dependencies and isn't written
+        for word in out_flag_bits.chunks(u32::BITS as usize) {
+            let mut out_word = 0u32;
+            for index in word.iter_ones() {
+                out_word |= 1 << index;
             }
-            byte
-        }) {
-            writer.write_u8(byte)?;
+            writer.write_u32::<LE>(out_word)?;
         }
 
         Ok(())
@@ -379,6 +360,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            i32::from(*HARD_BIT),
         )?;
 
         let name_dependencies =
@@ -389,6 +371,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                0,
             )?;
 
         let referencers =
-- 
2.43.0


From e10e11441ff3f70baae03aad3276305d95e6abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:22 +0000
Subject: [PATCH 064/136] fix: asset registry dependency section size included
 the size itself

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index e9da078..531b75e 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -86,7 +86,14 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
+            let dependency_section_end = u64::try_from(dependency_section_size)
+                .ok()
+                .and_then(|size| asset.position().checked_add(size))
+                .ok_or_else(|| {
+                    Error::invalid_file(format!(
+                        "Invalid dependency section size: {dependency_section_size}"
+                    ))
+                })?;
             let local_num_depends_nodes = asset.read_i32::<LE>()?;
 
             *depends_nodes = Vec::new();
@@ -137,7 +144,7 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            writer.write_i64::<LE>(end_pos as i64 - pos as i64 - 8)?; // without the size itself
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 1f1eb412d0ea355b18e56fc7dcfe5b0a98cf97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:22 +0000
Subject: [PATCH 065/136] fix: asset registry imported class count wasn't
 written

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From c5feaf5d784bc7b6b80efc9d617924f6dde38e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:22 +0000
Subject: [PATCH 066/136] fix: duplicate names in an asset registry shifted
 name indices

---
 unreal_asset/unreal_asset_registry/src/name_table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
index 21929f4..ddc9d3c 100644
--- a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
+++ b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
@@ -44,7 +44,7 @@ impl<'reader, Reader: ArchiveReader<PackageIndex>> NameTableReader<'reader, Read
                 let name = reader.read_fstring()?.ok_or_else(|| {
                     Error::invalid_file(format!("Name table entry {i} is missing a name"))
                 })?;
-                name_map.get_mut().add_name_reference(name, false);
+                name_map.get_mut().add_name_reference(name, true);
 
                 if reader.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
                     let _non_case_preserving_hash = reader.read_u16::<LE>()?;
-- 
2.43.0


From 4e4e36ba5c7081c241318b4af6ad7f63220c9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 067/136] fix: asset registry store strings and value ids were
 read incorrectly

---
 .../src/objects/store.rs                      | 56 +++++++------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/store.rs b/unreal_asset/unreal_asset_registry/src/objects/store.rs
index d55ecd9..518b4c2 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/store.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/store.rs
@@ -49,7 +49,7 @@ impl ValueId {
     ) -> Result<Self, Error> {
         let id = asset.read_u32::<LE>()?;
         let value_type = EValueType::try_from((id << INDEX_BITS) >> INDEX_BITS)?;
-        let index = id as i32 >> TYPE_BITS;
+        let index = (id >> TYPE_BITS) as i32;
 
         Ok(Self { value_type, index })
     }
@@ -252,53 +252,35 @@ impl Store {
                 Ok(asset.read_i32::<LE>()?)
             })?;
 
-        let mut ansi_strings_buf = vec![0u8; ansi_strings_size as usize];
-        asset.read_exact(&mut ansi_strings_buf)?;
+        let ansi_strings_buf = asset.read_bytes(i64::from(ansi_strings_size))?;
 
         let mut ansi_strings = Vec::new();
 
         for ansi_string_offset in ansi_string_offsets {
-            let mut length = 0;
-            while ansi_strings_buf
-                .get((ansi_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-            {
-                length += 1;
-            }
-
-            let ansi_string = String::from_utf8(
-                ansi_strings_buf[(ansi_string_offset + length + 1) as usize..].to_vec(),
-            )
-            .map_err(|_| Error::invalid_file("Invalid ANSI string".to_string()))?;
+            let ansi_string = usize::try_from(ansi_string_offset)
+                .ok()
+                .and_then(|offset| ansi_strings_buf.get(offset..))
+                .map(|e| e.iter().copied().take_while(|e| *e != 0).collect())
+                .and_then(|e| String::from_utf8(e).ok())
+                .ok_or_else(|| Error::invalid_file("Invalid ANSI string".to_string()))?;
             ansi_strings.push(ansi_string);
         }
 
-        let mut wide_strings_buf = vec![0u8; (wide_strings_size * 2) as usize];
-        asset.read_exact(&mut wide_strings_buf)?;
+        let wide_strings_buf = asset
+            .read_bytes(i64::from(wide_strings_size) * 2)?
+            .chunks_exact(2)
+            .map(|e| u16::from_le_bytes([e[0], e[1]]))
+            .collect::<Vec<_>>();
 
         let mut wide_strings = Vec::new();
 
         for wide_string_offset in wide_string_offsets {
-            let mut length = 0;
-            while wide_strings_buf
-                .get((wide_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-                && wide_strings_buf
-                    .get((wide_string_offset + length + 1) as usize)
-                    .map(|e| *e != 0)
-                    .unwrap_or(false)
-            {
-                length += 2;
-            }
-
-            let wide_string = String::from_utf16(
-                &wide_strings_buf[(wide_string_offset + length) as usize..]
-                    .chunks(2)
-                    .map(|e| u16::from_le_bytes([e[0], e[1]]))
-                    .collect::<Vec<_>>(),
-            )?;
+            let wide_string = usize::try_from(wide_string_offset)
+                .ok()
+                .and_then(|offset| wide_strings_buf.get(offset..))
+                .map(|e| e.iter().copied().take_while(|e| *e != 0).collect::<Vec<_>>())
+                .ok_or_else(|| Error::invalid_file("Invalid wide string".to_string()))?;
+            let wide_string = String::from_utf16(&wide_string)?;
             wide_strings.push(wide_string);
         }
 
-- 
2.43.0


From f57bb4b79f3dd6d59ca6752f75a240a2a59ea7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:26 +0000
Subject: [PATCH 068/136] fix: invalid depends node count caused a huge
 allocation

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 531b75e..8d95f01 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -60,6 +60,25 @@ pub struct AssetRegistryState {
 }
 
 impl AssetRegistryState {
+    /// Read the amount of depends nodes, each node takes at least a byte
+    fn read_num_depends_nodes<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+    ) -> Result<i32, Error> {
+        let num_depends_nodes = asset.read_i32::<LE>()?;
+
+        let position = asset.position();
+        let length = asset.seek(SeekFrom::End(0))?;
+        asset.set_position(position)?;
+
+        if i64::from(num_depends_nodes) > length.saturating_sub(position) as i64 {
+            return Err(Error::invalid_file(format!(
+                "Invalid amount of depends nodes: {num_depends_nodes}"
+            )));
+        }
+
+        Ok(num_depends_nodes)
+    }
+
     /// Read an `AssetRegistryState` from an asset
     fn load<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -71,7 +90,7 @@ impl AssetRegistryState {
         *assets_data = asset.read_array(|asset: &mut Reader| AssetData::new(asset, version))?;
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
             *depends_nodes = Vec::new();
 
             for i in 0..local_num_depends_nodes {
@@ -94,7 +113,7 @@ impl AssetRegistryState {
                         "Invalid dependency section size: {dependency_section_size}"
                     ))
                 })?;
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let local_num_depends_nodes = Self::read_num_depends_nodes(asset)?;
 
             *depends_nodes = Vec::new();
             for i in 0..local_num_depends_nodes {
-- 
2.43.0


From be137072d06de04480e377344d5a04a2980feba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:40 +0000
Subject: [PATCH 069/136] fix: AC7 encryption of files shorter than the magic

---
 unreal_asset/src/ac7.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/ac7.rs b/unreal_asset/src/ac7.rs
index 8f5e40d..a020f84 100644
--- a/unreal_asset/src/ac7.rs
+++ b/unreal_asset/src/ac7.rs
@@ -130,7 +130,8 @@ pub fn decrypt(uasset: &[u8], uexp: &[u8], mut key: AC7XorKey) -> (Vec<u8>, Vec<
 /// Decrypt a uasset file using a given key
 pub fn decrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut decrypted = vec![0u8; uasset.len()];
-    decrypted[..4].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)); // todo: replace with constant
+    let magic_len = decrypted.len().min(4);
+    decrypted[..magic_len].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)[..magic_len]); // todo: replace with constant
 
     for i in 4..uasset.len() {
         decrypted[i] = key.xor_byte(uasset[i]);
@@ -163,7 +164,8 @@ const AC7_ASSET_MAGIC: u32 = 0x37454341;
 /// Encrypt a uasset file using a given key
 pub fn encrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut encrypted = vec![0u8; uasset.len()];
-    encrypted[..4].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC));
+    let magic_len = encrypted.len().min(4);
+    encrypted[..magic_len].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC)[..magic_len]);
 
     for i in 4..uasset.len() {
         encrypted[i] = key.xor_byte(uasset[i]);
-- 
2.43.0


From 6e1ff95557715b60cbc805d21940d76b3b0b2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:40 +0000
Subject: [PATCH 070/136] fix: FAnimPhysObjectVersion was missing from the
 default custom versions

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..e62fbbe 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,6 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
@@ -77,6 +76,7 @@ lazy_static! {
         ( FEditorObjectVersion::GUID,                               (String::from(FEditorObjectVersion::FRIENDLY_NAME), Some(FEditorObjectVersion::VERSION_MAPPINGS)) ),
         ( FFrameworkObjectVersion::GUID,                            (String::from(FFrameworkObjectVersion::FRIENDLY_NAME), Some(FFrameworkObjectVersion::VERSION_MAPPINGS)) ),
         ( FFortniteMainBranchObjectVersion::GUID,                   (String::from(FFortniteMainBranchObjectVersion::FRIENDLY_NAME), Some(FFortniteMainBranchObjectVersion::VERSION_MAPPINGS)) ),
+        ( FAnimPhysObjectVersion::GUID,                             (String::from(FAnimPhysObjectVersion::FRIENDLY_NAME), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( FReleaseObjectVersion::GUID,                              (String::from(FReleaseObjectVersion::FRIENDLY_NAME), Some(FReleaseObjectVersion::VERSION_MAPPINGS)) ),
         ( FSequencerObjectVersion::GUID,                            (String::from(FSequencerObjectVersion::FRIENDLY_NAME), Some(FSequencerObjectVersion::VERSION_MAPPINGS)) ),
     ]);
-- 
2.43.0


From 3a1ce1c6d850faecdda0cebf1c5e0bafd82dbeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:40 +0000
Subject: [PATCH 071/136] fix: engine version guess ignored engine versions
 that share an object version

---
 .../unreal_asset_base/src/engine_version.rs   | 22 +++++--------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9b311f2..b79e9fd 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -229,7 +229,7 @@ lazy_static! {
                 EngineVersion::VER_UE5_1
             ),
             (
-                ObjectVersionUE5::AUTOMATIC_VERSION,
+                ObjectVersionUE5::DATA_RESOURCES,
                 EngineVersion::VER_UE5_2
             )
         ]);
@@ -240,23 +240,11 @@ pub fn get_possible_versions(
     object_version: ObjectVersion,
     object_version_ue5: ObjectVersionUE5,
 ) -> Vec<EngineVersion> {
-    let mut possible_versions = Vec::new();
-    if let Some(ue5_version) = OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+    OBJECT_VERSION_TO_ENGINE_VERSION
         .iter()
-        .find(|(version, _)| *version == object_version_ue5)
         .map(|(_, engine_version)| *engine_version)
-    {
-        possible_versions.push(ue5_version);
-    }
-
-    possible_versions.extend(
-        OBJECT_VERSION_TO_ENGINE_VERSION
-            .iter()
-            .find(|(version, _)| *version == object_version)
-            .map(|(_, engine_version)| *engine_version),
-    );
-
-    possible_versions
+        .filter(|e| get_object_versions(*e) == (object_version, object_version_ue5))
+        .collect()
 }
 
 /// Get object versions for a given engine version
@@ -305,7 +293,7 @@ pub fn guess_engine_version(
             .get_engine_version_from_version_number(custom_version.version)
             .unwrap_or(EngineVersion::UNKNOWN);
         let current_max_introduced = custom_version
-            .get_engine_version_from_version_number(custom_version.version + 1)
+            .get_engine_version_from_version_number(custom_version.version.saturating_add(1))
             .unwrap_or(EngineVersion::UNKNOWN);
 
         if current_min_introduced != EngineVersion::UNKNOWN
-- 
2.43.0


From bce92019867aa728d84c74e5ea5940ade762b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:40 +0000
Subject: [PATCH 072/136] fix: panic on an invalid dependency version in mod
 metadata

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 7a098d2298c2e151d1f0e49b3cd7cbb8b4eb7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:55 +0000
Subject: [PATCH 073/136] fix: panic when comparing mod metadata with nested
 integrator values

---
 unreal_mod_metadata/src/lib.rs | 36 ++++++++++++++++++++++---------
 unreal_mod_metadata/src/v1.rs  | 10 ++++-----
 unreal_mod_metadata/src/v2.rs  | 39 ++++++++++++----------------------
 3 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..f4a916a 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -1,7 +1,9 @@
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 use semver::VersionReq;
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
+use serde_json::Value;
 
 use error::Error;
 
@@ -10,17 +12,31 @@ pub(crate) mod v1;
 pub mod v2;
 pub use crate::v2::Metadata;
 
-#[macro_export]
-macro_rules! hash_value {
-    ($name:expr, $state:expr) => {
-        match $name {
-            Value::String(s) => s.hash($state),
-            Value::Number(n) => n.hash($state),
-            Value::Bool(b) => b.hash($state),
-            Value::Null => (),
-            _ => unreachable!(),
+/// Hash a json value, doesn't depend on the order of object keys
+pub(crate) fn hash_value<H: Hasher>(value: &Value, state: &mut H) {
+    std::mem::discriminant(value).hash(state);
+    match value {
+        Value::String(s) => s.hash(state),
+        Value::Number(n) => n.hash(state),
+        Value::Bool(b) => b.hash(state),
+        Value::Null => (),
+        Value::Array(elements) => {
+            elements.len().hash(state);
+            for element in elements {
+                hash_value(element, state);
+            }
+        }
+        Value::Object(object) => {
+            let mut elements: Vec<_> = object.iter().collect();
+            elements.sort_by_key(|(name, _)| *name);
+
+            elements.len().hash(state);
+            for (name, element) in elements {
+                name.hash(state);
+                hash_value(element, state);
+            }
         }
-    };
+    }
 }
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
diff --git a/unreal_mod_metadata/src/v1.rs b/unreal_mod_metadata/src/v1.rs
index a4aa040..0003595 100644
--- a/unreal_mod_metadata/src/v1.rs
+++ b/unreal_mod_metadata/src/v1.rs
@@ -45,19 +45,19 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         if let Some(persistent_actors) = self.persistent_actors.as_ref() {
-            hash_value!(persistent_actors, state);
+            hash_value(persistent_actors, state);
         }
         if let Some(mission_trailheads) = self.mission_trailheads.as_ref() {
-            hash_value!(mission_trailheads, state);
+            hash_value(mission_trailheads, state);
         }
         if let Some(linked_actor_components) = self.linked_actor_components.as_ref() {
-            hash_value!(linked_actor_components, state);
+            hash_value(linked_actor_components, state);
         }
         if let Some(item_list_entries) = self.item_list_entries.as_ref() {
-            hash_value!(item_list_entries, state);
+            hash_value(item_list_entries, state);
         }
         if let Some(biome_placement_modifiers) = self.biome_placement_modifiers.as_ref() {
-            hash_value!(biome_placement_modifiers, state);
+            hash_value(biome_placement_modifiers, state);
         }
     }
 }
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..4dfc1b8 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::HashMap;
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -95,16 +95,17 @@ impl Hash for Metadata {
         self.homepage.hash(state);
         self.download.hash(state);
 
-        self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
-            element_name.hash(state);
-            element.hash(state);
-        }
+        // the order of map elements is arbitrary
+        let mut dependencies: Vec<_> = self.dependencies.iter().collect();
+        dependencies.sort_by_key(|(element_name, _)| *element_name);
+        dependencies.hash(state);
 
-        self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        let mut integrator: Vec<_> = self.integrator.iter().collect();
+        integrator.sort_by_key(|(element_name, _)| *element_name);
+        integrator.len().hash(state);
+        for (element_name, element) in integrator {
             element_name.hash(state);
-            hash_value!(element, state);
+            hash_value(element, state);
         }
 
         self.cpp_loader_dlls.hash(state);
@@ -113,7 +114,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +126,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From 3bb7de78c59043c1d8a4465005275639f7b4dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 074/136] fix: mod descriptions written as array element 9 of
 the table of mods

---
 unreal_mod_integrator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index f2668ac..24b362f 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -230,7 +230,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
                 name: columns[2].clone(),
                 ancestry: Ancestry::default(),
                 property_guid: None,
-                duplication_index: 9,
+                duplication_index: 0,
                 value: Some(mod_data.description.clone().unwrap_or_default()),
             }
             .into(),
-- 
2.43.0


From b53366f1cfc3e54db9828f03fe3b551fa0c8bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:30 +0000
Subject: [PATCH 075/136] fix: baked mods provided by the caller integrated
 twice

---
 unreal_mod_integrator/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 24b362f..afdbee0 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -379,9 +379,17 @@ pub fn integrate_mods<
     );
 
     let baked_mods = integrator_config.get_baked_mods();
-    let core_mods = baked_mods.iter().filter(|e| e.is_core());
+    // baked mods that were already provided by the caller must not be integrated twice
+    let missing_baked_mods = baked_mods.iter().filter(|e| {
+        !mods.iter().any(|provided_mod| {
+            matches!(provided_mod, IntegratorMod::Baked(_))
+                && provided_mod.get_mod_id() == e.get_mod_id()
+        })
+    });
+
+    let core_mods = missing_baked_mods.clone().filter(|e| e.is_core());
 
-    let enabled_baked_mods = baked_mods.iter().filter(|e| !e.is_core()).filter(|e| {
+    let enabled_baked_mods = missing_baked_mods.filter(|e| !e.is_core()).filter(|e| {
         mods.iter()
             .any(|provided_mod| provided_mod.get_mod_id() == e.get_mod_id())
     });
-- 
2.43.0


From d89a95833a1cd39c427bc58f521dc52097947e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 076/136] fix: components of persistent actors looked up in the
 imports of the map

---
 .../src/handlers/ue4_23/persistent_actors.rs                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 357daf8..1c52cec 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -160,7 +160,7 @@ pub fn handle_persistent_actors(
                 let export = &actor_asset.asset_data.exports[i];
                 if let Some(normal_export) = export.get_normal_export() {
                     if normal_export.base_export.class_index.is_import() {
-                        let import = asset
+                        let import = actor_asset
                             .get_import(normal_export.base_export.class_index)
                             .ok_or_else(|| io::Error::new(ErrorKind::Other, "Import not found"))?;
                         if import.object_name == "SimpleConstructionScript" {
@@ -208,7 +208,7 @@ pub fn handle_persistent_actors(
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-                            let import = asset
+                            let import = actor_asset
                                 .get_import(known_category.base_export.class_index)
                                 .ok_or_else(|| {
                                 io::Error::new(ErrorKind::Other, "Import not found")
-- 
2.43.0


From 43ed2c0710ca2c699165a857535f8481aa19544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 077/136] fix: component classes of persistent actors imported
 with names and packages of the actor asset

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 56 +++++++++++--------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 1c52cec..8856ed8 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{self, BufReader, Cursor, ErrorKind};
+use std::io::{self, BufReader, Cursor, ErrorKind, Read, Seek};
 use std::path::Path;
 
 use unreal_asset::engine_version::EngineVersion;
@@ -31,6 +31,34 @@ struct ScsNode {
     original_category: PackageIndex,
 }
 
+/// Find an import of another asset in this asset, or add it
+fn copy_import<C: Read + Seek>(
+    asset: &mut Asset<C>,
+    import: &Import,
+    outer_index: PackageIndex,
+) -> PackageIndex {
+    match asset.find_import(
+        &import.class_package,
+        &import.class_name,
+        outer_index,
+        &import.object_name,
+    ) {
+        Some(e) => PackageIndex::new(e),
+        None => {
+            let import = Import {
+                class_package: import
+                    .class_package
+                    .get_content(|name| asset.add_fname(name)),
+                class_name: import.class_name.get_content(|name| asset.add_fname(name)),
+                outer_index,
+                object_name: import.object_name.get_content(|name| asset.add_fname(name)),
+                optional: import.optional,
+            };
+            asset.add_import(import)
+        }
+    }
+}
+
 #[allow(clippy::ptr_arg)]
 pub fn handle_persistent_actors(
     game_name: &'static str,
@@ -291,29 +319,9 @@ pub fn handle_persistent_actors(
 
                     if let (Some(first_import), Some(second_import)) = (first_import, second_import)
                     {
-                        if asset
-                            .find_import(
-                                &second_import.class_package,
-                                &second_import.class_name,
-                                second_import.outer_index,
-                                &second_import.object_name,
-                            )
-                            .is_none()
-                        {
-                            asset.add_import(second_import);
-                        }
-
-                        let type_link = match asset.find_import(
-                            &first_import.class_package,
-                            &first_import.class_name,
-                            first_import.outer_index,
-                            &first_import.object_name,
-                        ) {
-                            Some(e) => PackageIndex::new(e),
-                            None => asset.add_import(first_import),
-                        };
-
-                        new_scs.type_link = type_link;
+                        let package =
+                            copy_import(&mut asset, &second_import, PackageIndex::new(0));
+                        new_scs.type_link = copy_import(&mut asset, &first_import, package);
                     }
                     created_components.push(new_scs);
                 }
-- 
2.43.0


From 6b31eb08683e10507b76235a2a2a0c47bc80752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 078/136] fix: panic on a component node that is not part of
 the actor asset

---
 .../src/handlers/ue4_23/persistent_actors.rs              | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 8856ed8..3988de7 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -230,9 +230,11 @@ pub fn handle_persistent_actors(
 
                 let mut known_parents = HashMap::new();
                 for known_node_category in known_node_categories {
-                    let known_category: &NormalExport<_> = actor_asset.asset_data.exports
-                        [known_node_category as usize - 1]
-                        .get_normal_export()
+                    let known_category: &NormalExport<_> = actor_asset
+                        .asset_data
+                        .exports
+                        .get(known_node_category as usize - 1)
+                        .and_then(|e| e.get_normal_export())
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-- 
2.43.0


From 0e9e163bcfa062bd8a46a1cecf6c76a2f86519f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 079/136] fix: components of persistent actors lost the number
 of their name

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 3988de7..26b6e05 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -26,6 +26,7 @@ const LEVEL_TEMPLATE_ASSET: &[u8] = include_bytes!("assets/LevelTemplate.umap");
 #[derive(Default)]
 struct ScsNode {
     internal_variable_name: String,
+    internal_variable_number: i32,
     type_link: PackageIndex,
     attach_parent: Option<PackageIndex>,
     original_category: PackageIndex,
@@ -253,6 +254,7 @@ pub fn handle_persistent_actors(
 
                     let mut new_scs = ScsNode {
                         internal_variable_name: String::from("Unknown"),
+                        internal_variable_number: 0,
                         type_link: PackageIndex::new(0),
                         attach_parent: None,
                         original_category: PackageIndex::new(known_node_category),
@@ -270,6 +272,8 @@ pub fn handle_persistent_actors(
                                     {
                                         new_scs.internal_variable_name =
                                             name_property.value.get_owned_content();
+                                        new_scs.internal_variable_number =
+                                            name_property.value.get_number();
                                     }
                                 }
                                 "ComponentClass" => {
@@ -349,7 +353,10 @@ pub fn handle_persistent_actors(
                 let mut scene_export = scene_export.clone();
                 scene_export.base_export.class_index = created_component.type_link;
                 scene_export.base_export.object_name =
-                    asset.add_fname(&created_component.internal_variable_name);
+                    asset.get_name_map().get_mut().add_fname_with_number(
+                        &created_component.internal_variable_name,
+                        created_component.internal_variable_number,
+                    );
                 scene_export.base_export.outer_index = PackageIndex::new(template_category_pointer);
 
                 let mut prop_data: Vec<Property> = Vec::from([
@@ -407,7 +414,10 @@ pub fn handle_persistent_actors(
                 );
 
                 node_name_to_export_index.insert(
-                    created_component.internal_variable_name.clone(),
+                    (
+                        created_component.internal_variable_name.clone(),
+                        created_component.internal_variable_number,
+                    ),
                     asset.asset_data.exports.len() as i32,
                 );
                 old_export_to_new_export.insert(
@@ -419,13 +429,18 @@ pub fn handle_persistent_actors(
                     .get_import(created_component.type_link)
                     .ok_or_else(|| io::Error::new(ErrorKind::Other, "No type link"))?;
 
+                // the number of a name is stored incremented by one
+                let variable_name = match created_component.internal_variable_number {
+                    0 => created_component.internal_variable_name.clone(),
+                    number => {
+                        format!("{}_{}", created_component.internal_variable_name, number - 1)
+                    }
+                };
                 let import = Import {
                     class_package: asset.add_fname("/Script/Engine"),
                     class_name: type_link.object_name.clone(),
                     outer_index: actor_template.base_export.class_index,
-                    object_name: asset.add_fname(
-                        &(created_component.internal_variable_name.clone() + "_GEN_VARIABLE"),
-                    ),
+                    object_name: asset.add_fname(&(variable_name + "_GEN_VARIABLE")),
                     optional: false,
                 };
                 asset.add_import(import);
@@ -467,8 +482,8 @@ pub fn handle_persistent_actors(
                 .into(),
             ]);
 
-            for (node_name, export_index) in node_name_to_export_index {
-                if node_name == "DefaultSceneRoot" {
+            for ((node_name, node_number), export_index) in node_name_to_export_index {
+                if node_name == "DefaultSceneRoot" && node_number == 0 {
                     determined_prop_data.push(
                         ObjectProperty {
                             name: asset.add_fname("RootComponent"),
@@ -482,7 +497,10 @@ pub fn handle_persistent_actors(
                 }
                 determined_prop_data.push(
                     ObjectProperty {
-                        name: asset.add_fname(&node_name),
+                        name: asset
+                            .get_name_map()
+                            .get_mut()
+                            .add_fname_with_number(&node_name, node_number),
                         ancestry: Ancestry::default(),
                         property_guid: Some(Guid::default()),
                         duplication_index: 0,
-- 
2.43.0


From d1d8a9ea02d73c786e3e56eca90dbcddfd733060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:39 +0000
Subject: [PATCH 080/136] fix: the position of a chain does not depend on the
 underlying streams

stream_position re-seeked the second stream; when that failed the position was
taken for 0 and script bytecode was read from the start of the file.
---
 unreal_asset/unreal_asset_base/src/containers/chain.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 85d72a0..e72a6eb 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -104,6 +104,8 @@ impl<C: Read + Seek> Seek for Chain<C> {
                     self.first_len + self.second_len,
                     offset,
                 )?)),
+                // asking for the position must not depend on the streams
+                SeekFrom::Current(0) => Ok(self.pos),
                 SeekFrom::Current(offset) => {
                     self.seek(SeekFrom::Start(offset_position(self.pos, offset)?))
                 }
-- 
2.43.0


From 0c6429e0a5899dd93ccbfc41444f7ad73f9992fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 081/136] fix: remember the version of a parsed usmap file

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 3667098..5a17dc9 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -249,6 +249,7 @@ impl Usmap {
         }
 
         let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
+        self.version = usmap_version;
 
         let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
-- 
2.43.0


From 8cff09a4fc9d94e03e8abe369f2286057b56f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 082/136] fix: reject a usmap name of length zero instead of
 underflowing

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 5a17dc9..3740788 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -334,7 +334,10 @@ impl Usmap {
 
         self.name_map = reader.read_array(|reader| {
             let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
+            let name_length = name_length
+                .checked_sub(1)
+                .ok_or_else(|| Error::invalid_file("Invalid usmap name length".to_string()))?;
+            let mut buf = vec![0u8; name_length as usize];
             reader.read_exact(&mut buf)?;
             Ok(String::from_utf8(buf)?)
         })?;
-- 
2.43.0


From 6ccb31aabaf6af3ed92a5452f2ea859100d61b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 083/136] fix: reject usmap schema indices that overflow

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 3740788..3ba1421 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -109,7 +109,10 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index =
+                    property.schema_index.checked_add(j as u16).ok_or_else(|| {
+                        Error::invalid_file("Invalid usmap schema index".to_string())
+                    })?;
 
                 properties.insert(
                     (property.name.clone(), property.schema_index as u32),
-- 
2.43.0


From d88c2560843a9b6ad7401686aacd5bdd8a542f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 084/136] fix: find usmap properties by their duplication
 index, not their schema index

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 3ba1421..ac5c3ad 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -115,7 +115,7 @@ impl UsmapSchema {
                     })?;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
-- 
2.43.0


From cdc17b6213fb1ba7772692cbbeef674e80a0f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 085/136] fix: reject usmap module path indices out of range

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index ac5c3ad..1008afa 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -392,7 +392,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    schema.module_path =
+                        Some(module_paths.get(index as usize).cloned().ok_or_else(|| {
+                            Error::invalid_file("Invalid usmap module path index".to_string())
+                        })?);
                 }
             }
         }
-- 
2.43.0


From e331a409c8ad341d1e27341e3181b786c22096a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 086/136] fix: do not follow cyclic usmap super types forever

---
 .../unreal_asset_base/src/unversioned/mod.rs        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 1008afa..9cabb7c 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -1,5 +1,6 @@
 //! Allows reading unversioned assets using mappings
 
+use std::collections::HashSet;
 use std::hash::Hash;
 use std::io::{Cursor, Read, Seek};
 
@@ -182,8 +183,14 @@ impl Usmap {
         mut schema_name: &'name str,
     ) -> Vec<&UsmapProperty> {
         let mut properties = Vec::new();
+        let mut visited = HashSet::new();
 
         while let Some(schema) = self.schemas.get_by_key(schema_name) {
+            // malformed mappings can contain cycles
+            if !visited.insert(schema_name) {
+                break;
+            }
+
             properties.extend(schema.properties.values());
             schema_name = schema.super_type.as_str();
         }
@@ -201,6 +208,7 @@ impl Usmap {
         let mut optional_schema_name = ancestry.get_parent().map(|e| e.get_owned_content());
 
         let mut global_index = 0;
+        let mut visited = HashSet::new();
         loop {
             let Some(schema_name) = optional_schema_name else {
                 break;
@@ -210,6 +218,11 @@ impl Usmap {
                 break;
             };
 
+            // malformed mappings can contain cycles
+            if !visited.insert(schema_name) {
+                break;
+            }
+
             if let Some(property) =
                 property_name.get_content(|name| schema.get_property(name, duplication_index))
             {
-- 
2.43.0


From 23f241bf20de4dd7d82760efc1b0f8ce47880733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 087/136] fix: report the requirement of the dependent for an
 unresolved dependency

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..ced74df 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -155,7 +155,7 @@ impl DependencyGraph {
                                 (
                                     self.graph.node_weight(e).unwrap().mod_id.clone(),
                                     self.graph
-                                        .edges_connecting(node, e)
+                                        .edges_connecting(e, node)
                                         .next()
                                         .unwrap()
                                         .weight(),
-- 
2.43.0


From e5874e4bbebe8dfb5e60734e5d62a48cc6dabce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 088/136] fix: name the requirement of the dependent, not one
 in the other direction

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index ced74df..0ec2c94 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -200,14 +200,14 @@ impl DependencyGraph {
                 .map(|e| {
                     (
                         self.graph.node_weight(e).unwrap().mod_id.clone(),
-                        self.graph.find_edge_undirected(node, e),
+                        self.graph.find_edge(e, node),
                     )
                 })
                 .filter(|(_, edge)| edge.is_some())
                 .map(|(mod_id, edge)| {
                     (
                         mod_id,
-                        self.graph.edge_weight(edge.unwrap().0).unwrap().to_string(),
+                        self.graph.edge_weight(edge.unwrap()).unwrap().to_string(),
                     )
                 })
                 .collect::<Vec<_>>();
-- 
2.43.0


From ed063f8fdba5dca413cd2d43d614d917734113ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 089/136] fix: combine any number of version requirements
 without panicking

---
 .../src/mod_processing/dependencies.rs         | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 0ec2c94..d44ceae 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -42,21 +42,9 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    // a requirement holds if all of its comparators hold, no comparators match everything
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
-- 
2.43.0


From 42a0a31cc9f077f04610c35e2a79f067993325a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 090/136] fix: resolve a dependency among its own versions, not
 those of its dependent

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index d44ceae..7976125 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -10,6 +10,8 @@ use crate::error::ModLoaderWarning;
 struct GraphMod {
     mod_id: String,
     versions: Vec<Version>,
+    /// versions were assumed because the mod itself was not added yet
+    placeholder: bool,
     downloads: Vec<DownloadInfo>,
 }
 
@@ -52,8 +54,11 @@ impl DependencyGraph {
     fn get_or_add_mod(&mut self, game_mod: GraphMod) -> NodeIndex {
         if let Some(node) = self.node_lookup.get(&game_mod.mod_id) {
             let weight = self.graph.node_weight_mut(*node).unwrap();
-            if weight.versions.is_empty() && !game_mod.versions.is_empty() {
+            let unknown_versions =
+                weight.versions.is_empty() || (weight.placeholder && !game_mod.placeholder);
+            if unknown_versions && !game_mod.versions.is_empty() {
                 weight.versions = game_mod.versions.clone();
+                weight.placeholder = game_mod.placeholder;
             }
             for download in game_mod.downloads {
                 if !weight.downloads.contains(&download) {
@@ -79,6 +84,7 @@ impl DependencyGraph {
             let mod_node = self.get_or_add_mod(GraphMod {
                 mod_id: game_mod.mod_id.clone(),
                 versions: game_mod.versions.clone(),
+                placeholder: false,
                 downloads: Vec::new(),
             });
 
@@ -86,6 +92,7 @@ impl DependencyGraph {
                 let dependency_node = self.get_or_add_mod(GraphMod {
                     mod_id: dependency_mod_id.clone(),
                     versions: game_mod.versions.clone(),
+                    placeholder: true,
                     downloads: match dependency.download.as_ref() {
                         Some(e) => Vec::from([e.clone()]),
                         None => Vec::new(),
-- 
2.43.0


From fbd3cdbe05ee34debea4eb2f878ca44425913861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 091/136] fix: report an error that only shows when the written
 pak is flushed

---
 unreal_pak/src/pakwriter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/pakwriter.rs b/unreal_pak/src/pakwriter.rs
index 7b3ce9e..31fee5a 100644
--- a/unreal_pak/src/pakwriter.rs
+++ b/unreal_pak/src/pakwriter.rs
@@ -101,6 +101,11 @@ where
             footer,
         };
 
-        Index::write(&mut self.writer, index)
+        Index::write(&mut self.writer, index)?;
+
+        // a buffering writer would otherwise lose the error when it is dropped
+        self.writer.flush()?;
+
+        Ok(())
     }
 }
-- 
2.43.0


From 77be2c58ef921e25435a3e339183465ed0280666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 092/136] fix: do not mistake the content of a pak for its
 footer

---
 unreal_pak/src/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index f84962b..4433df4 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -168,6 +168,8 @@ impl Footer {
             }
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
+                // anything further from the end is content that happens to look like a footer
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From 6fa7d0fcd749981e1827c0fd6bd1f70d5501f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 093/136] fix: fail with a message if the input folder or the
 new pak cannot be used

---
 unreal_pak_cli/src/main.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 71821df..481981c 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -176,17 +176,20 @@ fn main() {
             let indir = Path::new(&indir).absolutize().unwrap().to_path_buf();
             let indir_len = indir.components().count();
 
-            println!("Creating {pakfile:?}");
+            if !indir.is_dir() {
+                eprintln!("Input is not a directory! {indir:?}");
+                exit(1);
+            }
 
-            // clear file
-            OpenOptions::new()
-                .create(true)
-                .write(true)
-                .truncate(true)
-                .open(&pakfile)
-                .unwrap();
+            println!("Creating {pakfile:?}");
 
-            let file = OpenOptions::new().append(true).open(&pakfile).unwrap();
+            let file = match File::create(&pakfile) {
+                Ok(file) => file,
+                Err(err) => {
+                    eprintln!("Error creating file {pakfile:?}! Error: {err}");
+                    exit(1);
+                }
+            };
 
             let mut pak = PakWriter::new(
                 BufWriter::new(file),
-- 
2.43.0


From f46a0bf18da422f77269e71e70fd5a0612232594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 094/136] fix: do not leave out folders that cannot be read
 when creating a pak

---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 481981c..1dba478 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -199,7 +199,13 @@ fn main() {
             // Get all files and write them to the .pak file
             let files = WalkDir::new(&indir)
                 .into_iter()
-                .filter_map(|entry| entry.ok())
+                .map(|entry| match entry {
+                    Ok(entry) => entry,
+                    Err(err) => {
+                        eprintln!("Error reading input directory! Error: {err}");
+                        exit(1);
+                    }
+                })
                 .filter(|entry| entry.file_type().is_file())
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
-- 
2.43.0


From 09507a9bf9f249fb78eb5ee1c20330bb23541232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 095/136] fix: do not pack a pak into itself

---
 unreal_pak_cli/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 1dba478..5e43532 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -207,6 +207,8 @@ fn main() {
                     }
                 })
                 .filter(|entry| entry.file_type().is_file())
+                // the pak that is being written may be in the input directory
+                .filter(|entry| entry.path() != pakfile)
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
 
-- 
2.43.0


From 7982fa9701bb650652d262352e578bc43642a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:18 +0000
Subject: [PATCH 096/136] fix: refuse file names that a pak cannot hold instead
 of changing them

---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 5e43532..fd2364b 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -222,7 +222,13 @@ fn main() {
                     components.next();
                 }
 
-                let mut file_name = components.as_path().to_string_lossy().replace('\\', "/");
+                let mut file_name = match components.as_path().to_str() {
+                    Some(file_name) => file_name.replace('\\', "/"),
+                    None => {
+                        eprintln!("File name is not valid unicode! {file_path:?}");
+                        exit(1);
+                    }
+                };
                 if file_name.starts_with('/') {
                     file_name = file_name[1..].to_owned();
                 }
-- 
2.43.0


From 063337bf33225a416795b7207edd949a1e29a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 097/136] fix: match the dots and digits of mod file names
 literally

---
 unreal_mod_manager/src/mod_processing/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index a63683b..ee818fa 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -14,7 +14,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+.\d+.\d+)_P.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^[0-9]{3})-([a-zA-Z0-9\.]+)-([0-9]+\.[0-9]+\.[0-9]+)_P\.pak$").unwrap();
 }
 
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
-- 
2.43.0


From 688f7b33c2e423e1852ef0b8c65d4fac27136548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 098/136] fix: warn about a mod file with an invalid version
 instead of panicking

---
 unreal_mod_manager/src/mod_processing/pakfile_reading.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..b38a1c9 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,11 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            // check that it really is a version, e.g. that it has no leading zeros
+            if Version::parse(version).is_err() {
+                return Err(ModLoaderWarning::invalid_mod_file_name(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
-- 
2.43.0


From a014300471553014963985318f067ebc0ed1cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 099/136] fix: do not panic on a mod file whose name is not
 valid unicode

---
 .../src/mod_processing/pakfile_reading.rs        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index b38a1c9..41b4225 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -25,7 +25,11 @@ pub(crate) fn read_pak_files(
     for file in mod_files.iter() {
         let file_path = &file.path;
         let file_result = (|| -> Result<(), ModLoaderWarning> {
-            let file_name = file_path.file_name().unwrap().to_str().unwrap().to_owned();
+            let file_name = file_path
+                .file_name()
+                .unwrap()
+                .to_string_lossy()
+                .into_owned();
 
             let file = fs::File::open(file_path)
                 .map_err(|err| ModLoaderWarning::from(err).with_mod_id(file_name.clone()))?;
@@ -49,7 +53,11 @@ pub(crate) fn read_pak_files(
                 ModLoaderWarning::invalid_metadata(file_name)
             })?;
 
-            let file_name = file_path.file_name().unwrap().to_str().unwrap().to_owned();
+            let file_name = file_path
+                .file_name()
+                .unwrap()
+                .to_string_lossy()
+                .into_owned();
 
             // check that filename generally matches
             if !verify::verify_mod_file_name(&file_name) {
@@ -106,13 +114,13 @@ pub(crate) fn read_pak_files(
             Ok(_) => {
                 debug!(
                     "Successfully read metadata for {:?}",
-                    file_path.file_name().unwrap().to_str().unwrap()
+                    file_path.file_name().unwrap()
                 );
             }
             Err(err) => {
                 warn!(
                     "Failed to read pak file {:?}, error: {}, deleting...",
-                    file_path.file_name().unwrap().to_str().unwrap(),
+                    file_path.file_name().unwrap(),
                     err
                 );
 
-- 
2.43.0


From 4def43a74ebc5e3f9f56df398b281ea40a94ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 100/136] fix: pick a newly added version if it is the latest
 one

---
 unreal_mod_manager/src/mod_processing/version_handling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index d3b37c4..46287c6 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -11,7 +11,7 @@ use crate::ModLoaderAppData;
 pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
     for (_, game_mod) in data.game_mods.iter_mut() {
         // if using latest indirect, find version
-        if let SelectedVersion::LatestIndirect(None) = game_mod.selected_version {
+        if let SelectedVersion::LatestIndirect(_) = game_mod.selected_version {
             let mut versions = game_mod.versions.keys().collect::<Vec<&Version>>();
             versions.sort();
             game_mod.selected_version =
-- 
2.43.0


From 63822a28520307c02bc405ceaaeac9354bb174e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 101/136] fix: refuse an index file with an invalid version
 instead of panicking

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..a459a2f 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
-- 
2.43.0


From 82204044d7018210cb941a8ad32af9aa22ef2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 102/136] fix: warn about an interrupted index file download
 instead of panicking

---
 .../src/mod_processing/index_file.rs               | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index a459a2f..a4e1afc 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -127,11 +127,15 @@ pub(crate) fn download_index_file(
         ));
     }
 
-    let index_file =
-        serde_json::from_str::<IndexFile>(response.text().unwrap().as_str()).map_err(|err| {
-            warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
-            ModLoaderWarning::invalid_index_file(mod_id.clone())
-        })?;
+    let text = response.text().map_err(|err| {
+        warn!("Failed to download index file for {:?}, {}", mod_id, err);
+        ModLoaderWarning::index_file_download_failed(mod_id.clone(), err)
+    })?;
+
+    let index_file = serde_json::from_str::<IndexFile>(text.as_str()).map_err(|err| {
+        warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
+        ModLoaderWarning::invalid_index_file(mod_id.clone())
+    })?;
 
     match index_file.mods.get(&mod_id) {
         Some(index_file_mod) => Ok((mod_id, index_file_mod.clone())),
-- 
2.43.0


From af113f5ba6eb765aaa4f16c5ecd0b339865edee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 103/136] fix: do not select a latest version that an index
 file does not contain

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index a4e1afc..778d716 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -227,6 +227,17 @@ pub(crate) fn insert_index_file_data(
             }
         }
 
+        // never select a version that does not exist
+        if !game_mod.versions.contains_key(&index_file.latest_version) {
+            warn!(
+                "Latest version {} of mod {:?} is not in its index file",
+                index_file.latest_version, mod_id
+            );
+            warnings.push(ModLoaderWarning::invalid_index_file(mod_id.to_owned()));
+
+            continue;
+        }
+
         match game_mod.selected_version {
             SelectedVersion::Latest(_) => {
                 game_mod.selected_version =
-- 
2.43.0


From 209db6ceddb8710623d2335e82f436a5faf0a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 104/136] fix: keep the shown mod data in step with the
 selected version

---
 unreal_mod_manager/src/mod_processing/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 355fcdb..f855a7d 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -60,5 +60,8 @@ pub(crate) fn process_modfiles(
     let insert_warnings = insert_index_file_data(&index_files, &mut data_guard);
     warnings.extend(insert_warnings);
 
+    // the index files might have changed which version is selected
+    set_mod_data_from_version(&mut data_guard, &filter);
+
     warnings
 }
-- 
2.43.0


From 9a13fa0135febad21cf2591b10f9b1414a5718cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 105/136] fix: stop showing the manager as busy once an import
 is done

---
 unreal_mod_manager/src/background_work.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index bbc3fd5..2e1cb87 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -235,6 +235,10 @@ where
                     process_modfiles(&files_to_process, &background_thread_data.data, true);
                 debug!("warnings: {:?}", warnings);
                 background_thread_data.data.lock().warnings.extend(warnings);
+
+                background_thread_data
+                    .working
+                    .store(false, Ordering::Release);
             }
             BackgroundThreadMessage::RemoveMod(mod_id) => {
                 let mut data_guard = background_thread_data.data.lock();
-- 
2.43.0


From 7a1c41ae7e89e9306722ae8b521db49880f6e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:08 +0000
Subject: [PATCH 106/136] fix: do not panic on a config file that is not valid
 unicode

---
 unreal_mod_manager/src/mod_config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..1eca27d 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -52,7 +52,10 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         bail!()
     }
 
-    let config: ModConfig = match serde_json::from_str(&fs::read_to_string(&config_path).unwrap()) {
+    let config = fs::read(&config_path)
+        .map_err(serde_json::Error::io)
+        .and_then(|config| serde_json::from_slice::<ModConfig>(&config));
+    let config = match config {
         Ok(config) => config,
         Err(err) => {
             error!("{}", err);
-- 
2.43.0


From fc04df0c8d14edabd91a4a3dab679868259d2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:08 +0000
Subject: [PATCH 107/136] fix: do not select a configured version that is not
 available anymore

---
 unreal_mod_manager/src/mod_config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 1eca27d..2e9098b 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -89,7 +89,13 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
                 continue;
             }
 
-            game_mod.selected_version = SelectedVersion::Specific(config_version.unwrap());
+            let config_version = config_version.unwrap();
+            if !game_mod.versions.contains_key(&config_version) {
+                warn!("Version {config_version} of mod {mod_id} is not available anymore");
+                continue;
+            }
+
+            game_mod.selected_version = SelectedVersion::Specific(config_version);
         }
     }
 
-- 
2.43.0


From 63ac1de5ae4a5ba162119d7a6993d554abeac5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:08 +0000
Subject: [PATCH 108/136] fix: fall back to an existing platform if the
 configured one is gone

---
 unreal_mod_manager/src/mod_config.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 2e9098b..139160c 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -34,14 +34,19 @@ struct ModConfigData {
     version: String,
 }
 
+fn set_default_game_platform(data: &mut ModLoaderAppData) {
+    if data.set_game_platform("Steam").is_err() {
+        if let Some(first_platform) = data.install_managers.keys().next().copied() {
+            let _ = data.set_game_platform(first_platform);
+        }
+    }
+}
+
 pub(crate) fn load_config(data: &mut ModLoaderAppData) {
     macro_rules! bail {
         () => {{
             warn!("Error reading config file!");
-            if data.set_game_platform("Steam").is_err() {
-                let first_platform = data.install_managers.keys().next().unwrap();
-                let _ = data.set_game_platform(first_platform);
-            }
+            set_default_game_platform(data);
             return;
         }};
     }
@@ -114,11 +119,11 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         }
     };
 
-    if let Some(ref selected_game_platform) = config.selected_game_platform {
-        let _ = data.set_game_platform(selected_game_platform);
-    } else if data.set_game_platform("Steam").is_err() {
-        let first_platform = data.install_managers.keys().next().unwrap();
-        let _ = data.set_game_platform(first_platform);
+    let selected = config
+        .selected_game_platform
+        .map_or(Err(()), |platform| data.set_game_platform(&platform));
+    if selected.is_err() {
+        set_default_game_platform(data);
     }
 
     debug!("Loaded config");
-- 
2.43.0


From 850fb13c50206619c04b2e35e0ef68b44e139847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:08 +0000
Subject: [PATCH 109/136] fix: keep the old config file if the new one cannot
 be written completely

---
 unreal_mod_manager/src/mod_config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 139160c..cd5812b 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -157,7 +157,11 @@ pub(crate) fn write_config(data: &ModLoaderAppData) {
     }
 
     let config_str = serde_json::to_string(&config).unwrap();
-    fs::write(config_path, config_str).unwrap();
 
-    debug!("Wrote config");
+    // replace the old file only once the new one is complete
+    let temp_path = config_path.with_extension("json.tmp");
+    match fs::write(&temp_path, config_str).and_then(|_| fs::rename(&temp_path, &config_path)) {
+        Ok(_) => debug!("Wrote config"),
+        Err(err) => error!("Failed to write config file: {}", err),
+    }
 }
-- 
2.43.0


From 826e1159df7f4143fa2529f7cd3c034ceef12fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 110/136] fix: do not crash if there is no paks folder to
 integrate into

---
 unreal_mod_manager/src/background_work.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 2e1cb87..e6c0e15 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -293,7 +293,10 @@ where
 
                 let mut data_guard = background_thread_data.data.lock();
 
-                let paks_path = data_guard.paks_path.as_ref().unwrap().clone();
+                let paks_path = match data_guard.paks_path {
+                    Some(ref paks_path) => paks_path.clone(),
+                    None => continue,
+                };
                 let install_path = match data_guard.game_install_path {
                     Some(ref install_path) => install_path.clone(),
                     None => continue,
-- 
2.43.0


From fd732a836ba6862171f0e6850b57a7be2c14c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 111/136] fix: do not take the error page of a server for a mod
 file

---
 unreal_mod_manager/src/background_work.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index e6c0e15..52b00e9 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -72,6 +72,7 @@ fn download_mod(
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
     // this is safe because the filename has already been validated
     let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
+        .and_then(|response| response.error_for_status())
         .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
     let file_path = mods_path.join(mod_version.file_name.clone());
-- 
2.43.0


From 2272f1fea170677a0d20531f146b0a41022bea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 112/136] fix: do not let an index file choose where a download
 is stored

---
 unreal_mod_manager/src/background_work.rs      | 18 +++++++++++++++++-
 .../src/mod_processing/index_file.rs           |  6 +++++-
 unreal_mod_manager/src/mod_processing/mod.rs   |  2 +-
 .../src/mod_processing/verify.rs               |  9 +++++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 52b00e9..c6f2ab9 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -30,7 +30,7 @@ use crate::mod_config::{load_config, write_config};
 use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
-    process_modfiles,
+    process_modfiles, verify,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -427,6 +427,22 @@ where
                                 match download_index_file(mod_id.clone(), download) {
                                     Ok((_, index_file)) => {
                                         for (version, index_version) in index_file.versions {
+                                            if !verify::verify_mod_file_name_of(
+                                                &index_version.file_name,
+                                                mod_id,
+                                                &version.to_string(),
+                                            ) {
+                                                warn!(
+                                                    "Failed to verify filename {:?} from index file for mod {:?}",
+                                                    index_version.file_name, mod_id
+                                                );
+                                                warnings.push(
+                                                    ModLoaderWarning::invalid_index_file(
+                                                        mod_id.clone(),
+                                                    ),
+                                                );
+                                                continue;
+                                            }
                                             entry.entry(version).or_insert(index_version);
                                         }
                                     }
diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 778d716..3eccc53 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -199,7 +199,11 @@ pub(crate) fn insert_index_file_data(
         let game_mod = data.game_mods.get_mut(mod_id).unwrap();
 
         for (version, version_info) in index_file.versions.iter() {
-            if !verify::verify_mod_file_name(&version_info.file_name) {
+            if !verify::verify_mod_file_name_of(
+                &version_info.file_name,
+                mod_id,
+                &version.to_string(),
+            ) {
                 warn!(
                     "Failed to verify filename {:?} from index file for mod {:?}",
                     version_info.file_name, mod_id
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index f855a7d..575d149 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -13,7 +13,7 @@ use pakfile_reading::{insert_mods_from_readdata, read_pak_files};
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-mod verify;
+pub(crate) mod verify;
 
 // TODO this should at somepoint be changed to `-> Result<Vec<ModLoaderWarning>, ModLoaderError>`
 // to properly convey that some things might critically fail.
diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index ee818fa..f8da582 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -17,6 +17,15 @@ lazy_static! {
     pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^[0-9]{3})-([a-zA-Z0-9\.]+)-([0-9]+\.[0-9]+\.[0-9]+)_P\.pak$").unwrap();
 }
 
+/// Checks that a file name is valid and that it is the name for this version of this mod.
+pub fn verify_mod_file_name_of(file_name: &str, mod_id: &str, version: &str) -> bool {
+    verify_mod_file_name(file_name)
+        && MOD_FILENAME_REGEX
+            .captures(file_name)
+            .map(|matches| &matches[2] == mod_id && &matches[3] == version)
+            .unwrap_or(false)
+}
+
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
     if let Some(matches) = MOD_FILENAME_REGEX.captures(mod_id) {
         if let Some(mod_name) = matches.get(2) {
-- 
2.43.0


From 6fb36b213dfacf03ba012831433eb144edb7cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 113/136] fix: keep no partial mod file when a download fails

---
 unreal_mod_manager/src/background_work.rs | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index c6f2ab9..a1ca795 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -71,26 +71,44 @@ fn download_mod(
     mod_version: &IndexFileModVersion,
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
     // this is safe because the filename has already been validated
+    let file_path = mods_path.join(&mod_version.file_name);
+
+    // only a complete file may take the place of an existing one
+    let temp_path = mods_path.join(format!("{}.tmp", mod_version.file_name));
+    let metadata = download_mod_to(&temp_path, mod_version)
+        .and_then(|metadata| {
+            fs::rename(&temp_path, &file_path)?;
+            Ok(metadata)
+        })
+        .map_err(|err| {
+            let _ = fs::remove_file(&temp_path);
+            err.with_mod_id(mod_version.file_name.clone())
+        })?;
+
+    Ok((metadata, file_path))
+}
+
+fn download_mod_to(
+    file_path: &Path,
+    mod_version: &IndexFileModVersion,
+) -> Result<Metadata, ModLoaderWarning> {
     let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
         .and_then(|response| response.error_for_status())
         .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
-    let file_path = mods_path.join(mod_version.file_name.clone());
-    let mut file = fs::File::create(&file_path)?;
+    let mut file = fs::File::create(file_path)?;
 
     io::copy(&mut response, &mut file)?;
 
     drop(file);
-    let file = fs::File::open(&file_path)?;
+    let file = fs::File::open(file_path)?;
 
     let mut pak = PakReader::new(&file);
     pak.load_index()?;
 
     let metadata = pak.read_entry(&String::from("metadata.json"))?;
-    let metadata = unreal_mod_metadata::from_slice(&metadata)
-        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
-
-    Ok((metadata, file_path))
+    unreal_mod_metadata::from_slice(&metadata)
+        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))
 }
 
 fn download_mods(mods_path: &Path, files_to_download: &[GameModVersion]) -> Vec<ModLoaderWarning> {
-- 
2.43.0


From 3d3236a09213c69b3bb1ccc9178d728d5ffa89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 114/136] fix: do not accept a downloaded mod that is a
 different one than its file name says

---
 unreal_mod_manager/src/background_work.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index a1ca795..fa1d9c9 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -107,8 +107,20 @@ fn download_mod_to(
     pak.load_index()?;
 
     let metadata = pak.read_entry(&String::from("metadata.json"))?;
-    unreal_mod_metadata::from_slice(&metadata)
-        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))
+    let metadata: Metadata = unreal_mod_metadata::from_slice(&metadata)
+        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
+
+    if !verify::verify_mod_file_name_of(
+        &mod_version.file_name,
+        &metadata.mod_id,
+        &metadata.mod_version,
+    ) {
+        return Err(ModLoaderWarning::invalid_metadata(
+            mod_version.file_name.clone(),
+        ));
+    }
+
+    Ok(metadata)
 }
 
 fn download_mods(mods_path: &Path, files_to_download: &[GameModVersion]) -> Vec<ModLoaderWarning> {
-- 
2.43.0


From 13515e9f6885734f97e45e036a05cd3c3c7fccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 115/136] fix: do not fetch mods that depend on each other
 forever

---
 unreal_mod_manager/src/background_work.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index fa1d9c9..648ea73 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::env;
 use std::fs::{self, File};
 use std::io::{self, Error};
@@ -439,6 +439,12 @@ where
                         ));
                     }
 
+                    // mods that do not have to be fetched (again)
+                    let mut known_mods = first_round
+                        .iter()
+                        .map(|m| m.mod_id.clone())
+                        .collect::<HashSet<_>>();
+
                     let mut graph = DependencyGraph::default();
 
                     let mut download_pool = HashMap::new();
@@ -449,6 +455,10 @@ where
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            if known_mods.contains(mod_id) {
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
@@ -493,6 +503,7 @@ where
                                         entry.keys().cloned().collect(),
                                         metadata.dependencies,
                                     );
+                                    known_mods.insert(mod_id.clone());
                                     next_round.push(mod_info);
                                 }
                             }
-- 
2.43.0


From c5ea5839684816a49920213d970bded926d7fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 116/136] fix: resolve a dependency to its newest matching
 version instead of any

---
 unreal_mod_manager/src/background_work.rs             | 3 ++-
 unreal_mod_manager/src/mod_processing/dependencies.rs | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 648ea73..cea2d3b 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -492,7 +492,8 @@ where
 
                             let matching_version = entry
                                 .iter()
-                                .find(|(version, _)| version_req.matches(version));
+                                .filter(|(version, _)| version_req.matches(version))
+                                .max_by_key(|(version, _)| *version);
 
                             if let Some((_, index_version)) = matching_version {
                                 let file = download_mod(&mods_path, index_version);
diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 7976125..d5b5dd3 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -135,7 +135,11 @@ impl DependencyGraph {
             let requirement = intersect_requirements(requirements);
 
             let weight = self.graph.node_weight(node).unwrap();
-            let matching_version = weight.versions.iter().find(|e| requirement.matches(e));
+            let matching_version = weight
+                .versions
+                .iter()
+                .filter(|e| requirement.matches(e))
+                .max();
 
             match matching_version {
                 Some(matching_version) => {
-- 
2.43.0


From f8f6ce377cc2cc0e27381cbc5da33e11278e9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 117/136] fix: report why a dependency could not be downloaded

---
 unreal_mod_manager/src/background_work.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index cea2d3b..4da0848 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -496,16 +496,17 @@ where
                                 .max_by_key(|(version, _)| *version);
 
                             if let Some((_, index_version)) = matching_version {
-                                let file = download_mod(&mods_path, index_version);
-
-                                if let Ok((metadata, _)) = file {
-                                    let mod_info = ModWithDependencies::new(
-                                        mod_id.clone(),
-                                        entry.keys().cloned().collect(),
-                                        metadata.dependencies,
-                                    );
-                                    known_mods.insert(mod_id.clone());
-                                    next_round.push(mod_info);
+                                match download_mod(&mods_path, index_version) {
+                                    Ok((metadata, _)) => {
+                                        let mod_info = ModWithDependencies::new(
+                                            mod_id.clone(),
+                                            entry.keys().cloned().collect(),
+                                            metadata.dependencies,
+                                        );
+                                        known_mods.insert(mod_id.clone());
+                                        next_round.push(mod_info);
+                                    }
+                                    Err(err) => warnings.push(err),
                                 }
                             }
                         }
-- 
2.43.0


From 3d1867e7ce128150a526d1f492880187c5ff853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 118/136] fix: check whether a mod is trusted also when it was
 only just downloaded

---
 unreal_mod_manager/src/background_work.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 4da0848..0d71fb1 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -412,6 +412,23 @@ where
                         false,
                     ));
 
+                    // the metadata of newly downloaded files is only known now
+                    for mod_version in mods_to_install.iter_mut() {
+                        let data_guard = background_thread_data.data.lock();
+                        let processed_version = data_guard
+                            .game_mods
+                            .get(&mod_version.mod_id)
+                            .and_then(|game_mod| {
+                                game_mod
+                                    .versions
+                                    .values()
+                                    .find(|v| v.file_name == mod_version.file_name)
+                            });
+                        if let Some(processed_version) = processed_version {
+                            *mod_version = processed_version.clone();
+                        }
+                    }
+
                     // fetch dependencies
                     let mut first_round = Vec::new();
 
-- 
2.43.0


From 806f6db4e3f39abc95a7a2243b07169bea24fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:48 +0000
Subject: [PATCH 119/136] fix: show the warnings that led to a failed
 integration

---
 unreal_mod_manager/src/background_work.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 0d71fb1..fb8e710 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -399,7 +399,7 @@ where
                     continue;
                 }
 
-                let integration_work = || -> Result<Vec<ModLoaderWarning>, ModLoaderWarning> {
+                let mut integration_work = || -> Result<(), ModLoaderWarning> {
                     warnings.extend(download_mods(&mods_path, &mods_to_install));
 
                     // process newly downloaded files
@@ -724,10 +724,11 @@ where
                     // update config file
                     write_config(&background_thread_data.data.lock());
 
-                    Ok(warnings)
+                    Ok(())
                 };
-                match integration_work() {
-                    Ok(warnings) => {
+                let result = integration_work();
+                match result {
+                    Ok(()) => {
                         if warnings.is_empty() {
                             debug!("Integration work was successful.");
                         } else {
@@ -742,6 +743,7 @@ where
                     Err(err) => {
                         error!("Mayor Integration work error: {}", err);
                         let mut data_guard = background_thread_data.data.lock();
+                        data_guard.warnings.extend(warnings);
                         data_guard.warnings.push(err);
                         data_guard.failed = true;
                     }
-- 
2.43.0


From 95b2d453bd3e7ba13bfb7247001a739c84073906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:49 +0000
Subject: [PATCH 120/136] fix: select the version of a dependency that the mods
 using it need

---
 unreal_mod_manager/src/background_work.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index fb8e710..89be381 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -569,7 +569,7 @@ where
                                             metadata: Some(metadata),
                                         });
 
-                                        to_enable.push(mod_id.clone());
+                                        to_enable.push((mod_id.clone(), version));
                                         downloaded_mods.push(FileToProcess::new(mod_path, false));
                                     }
                                     Err(err) => warnings.push(err),
@@ -593,9 +593,15 @@ where
                     warnings.extend(process_warnings);
 
                     let mut data_guard = background_thread_data.data.lock();
-                    for to_enable in to_enable {
-                        if let Some(game_mod) = data_guard.game_mods.get_mut(&to_enable) {
+                    for (mod_id, version) in to_enable {
+                        if let Some(game_mod) = data_guard.game_mods.get_mut(&mod_id) {
                             game_mod.enabled = true;
+
+                            // the latest version might not be one that all dependents accept
+                            if game_mod.selected_version.clone().unwrap() != version {
+                                game_mod.selected_version =
+                                    game_mod::SelectedVersion::Specific(version);
+                            }
                         }
                     }
 
-- 
2.43.0


From 0f9bb2cd476dab3ce7cfad3982ffc1aee7c9934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:17 +0000
Subject: [PATCH 121/136] fix: do not crash if a mod file is deleted while it
 is being processed

---
 unreal_mod_manager/src/mod_processing/version_handling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index 46287c6..27f45f5 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -57,7 +57,8 @@ pub(crate) fn set_mod_data_from_version(data: &mut ModLoaderAppData, filter: &[S
                 .as_ref()
                 .unwrap()
                 .join(version_data.file_name.clone());
-            game_mod.size = fs::metadata(path).unwrap().len();
+            // the file might have been deleted since it was read
+            game_mod.size = fs::metadata(path).map(|file| file.len()).unwrap_or(0);
         }
     }
 }
-- 
2.43.0


From 7ba538c749d3548d5dafc36382cba302451697ce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:35:05 +0000
Subject: [PATCH 122/136] fix: do not crash on a native library path without a
 file name

---
 unreal_cpp_bootstrapper/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_cpp_bootstrapper/src/lib.rs b/unreal_cpp_bootstrapper/src/lib.rs
index 1125f1a..2136d22 100644
--- a/unreal_cpp_bootstrapper/src/lib.rs
+++ b/unreal_cpp_bootstrapper/src/lib.rs
@@ -1,6 +1,6 @@
 use std::env;
 use std::fs::{self, File, OpenOptions};
-use std::io::Write;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use error::CppBootstrapperError;
@@ -55,7 +55,13 @@ pub fn bootstrap(
             let dll_path = PathBuf::from(&dll);
             let dll_data = pak.read_entry(&dll)?;
 
-            let path = extract_path.join(dll_path.file_name().unwrap().to_str().unwrap());
+            let file_name = dll_path.file_name().ok_or_else(|| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("{dll} is not a valid dll path"),
+                )
+            })?;
+            let path = extract_path.join(file_name);
 
             let mut file = OpenOptions::new()
                 .create(true)
-- 
2.43.0


From a63fdca23982d0bc1f3940ad7b6e1d6f96c0a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:35:06 +0000
Subject: [PATCH 123/136] fix: write a valid registry file to where wine is
 told to read it

---
 .../src/game_platform_managers/proton.rs           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/game_platform_managers/proton.rs b/unreal_mod_manager/src/game_platform_managers/proton.rs
index 8894295..24c8252 100644
--- a/unreal_mod_manager/src/game_platform_managers/proton.rs
+++ b/unreal_mod_manager/src/game_platform_managers/proton.rs
@@ -101,7 +101,12 @@ impl unreal_cpp_bootstrapper::CppLoaderInstallExtension<ModLoaderWarning> for Pr
             return Err(ModLoaderWarning::steam_error());
         };
 
-        let registry_path = install_path.join("reg.reg");
+        let Some(user_path) = game_path_helpers::determine_user_path_proton(self.app_id) else {
+            return Err(ModLoaderWarning::steam_error());
+        };
+
+        // this is C:\Users\steamuser\reg.reg inside of the prefix
+        let registry_path = user_path.join("reg.reg");
         let file = std::fs::OpenOptions::new()
             .create(true)
             .write(true)
@@ -109,15 +114,16 @@ impl unreal_cpp_bootstrapper::CppLoaderInstallExtension<ModLoaderWarning> for Pr
             .open(registry_path)?;
 
         let mut writer = std::io::BufWriter::new(file);
-        write!(writer, "Windows Registry Editor Version 5.00")?;
+        writeln!(writer, "Windows Registry Editor Version 5.00")?;
+        writeln!(writer)?;
 
-        write!(
+        writeln!(
             writer,
             "[HKEY_CURRENT_USER\\Software\\Wine\\AppDefaults\\{}-Win64-Shipping.exe\\DllOverrides]",
             self.game_name
         )?;
 
-        write!(writer, "\"xinput1_3\"=\"native,builtin\"")?;
+        writeln!(writer, "\"xinput1_3\"=\"native,builtin\"")?;
 
         drop(writer);
 
-- 
2.43.0


From 9ba63d03d2954f14dcad5188404de0a203636acf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:36:06 +0000
Subject: [PATCH 124/136] fix: report http errors instead of saving the error
 page as the asset

---
 github_helpers/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/github_helpers/src/lib.rs b/github_helpers/src/lib.rs
index cf851f9..13a4d16 100644
--- a/github_helpers/src/lib.rs
+++ b/github_helpers/src/lib.rs
@@ -23,7 +23,8 @@ impl ReleaseAsset {
         let mut response = blocking::Client::new()
             .get(&self.browser_download_url)
             .headers(get_headers())
-            .send()?;
+            .send()?
+            .error_for_status()?;
 
         io::copy(&mut response, file)?;
 
@@ -50,7 +51,8 @@ pub fn get_latest_release(repo_url: &str) -> Result<Release, Box<dyn Error>> {
             "https://api.github.com/repos/{repo_url}/releases/latest"
         ))
         .headers(headers)
-        .send()?;
+        .send()?
+        .error_for_status()?;
 
     let text = api_response.text()?;
     let release: Release = serde_json::from_str(&text)?;
-- 
2.43.0


From bf03391a107a3f45778e40fd8e068df669c9c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:00 +0000
Subject: [PATCH 125/136] fix: do not add the custom versions of the mappings
 to a versioned asset

---
 unreal_asset/src/asset.rs                     | 13 ++++++------
 .../src/reader/archive_reader.rs              | 20 ++++++++++---------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index b73b37d..1ec5f3f 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -585,14 +585,15 @@ impl<'a, C: Read + Seek> Asset<C> {
         // read custom versions container
         if self.legacy_file_version <= -2 {
             // TODO: support for enum-based custom versions
-            // the custom versions of the engine are only a replacement for the ones missing in an unversioned asset
-            let old_container = match self.asset_data.summary.unversioned {
-                true => self.asset_data.summary.custom_versions.clone(),
-                false => Vec::new(),
-            };
+            // the custom versions of the engine and the mappings are only a replacement for the ones missing in an unversioned asset
+            let old_container = self
+                .asset_data
+                .summary
+                .unversioned
+                .then(|| self.asset_data.summary.custom_versions.clone());
             self.asset_data.summary.custom_versions = self.read_custom_version_container(
                 self.get_custom_version_serialization_format(),
-                Some(&old_container),
+                old_container.as_deref(),
             )?;
         }
 
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 0855fa5..0afe1c9 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -45,6 +45,8 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
     }
 
     /// Read custom version container
+    ///
+    /// If there is an old container, versions missing in the file are taken from the mappings and the old container
     fn read_custom_version_container(
         &mut self,
         format: ECustomVersionSerializationFormat,
@@ -76,18 +78,18 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
             existing_versions.insert(custom_version_guid);
         }
 
-        // todo: move to iterator joining
-        if let Some(custom_version_container) =
-            self.get_mappings().as_ref().map(|e| &e.custom_versions)
-        {
-            for custom_version in custom_version_container {
-                if !existing_versions.contains(&custom_version.guid) {
-                    new_container.push(custom_version.clone());
+        if let Some(old_container) = old_container {
+            // todo: move to iterator joining
+            if let Some(custom_version_container) =
+                self.get_mappings().as_ref().map(|e| &e.custom_versions)
+            {
+                for custom_version in custom_version_container {
+                    if existing_versions.insert(custom_version.guid) {
+                        new_container.push(custom_version.clone());
+                    }
                 }
             }
-        }
 
-        if let Some(old_container) = old_container {
             for custom_version in old_container {
                 if !existing_versions.contains(&custom_version.guid) {
                     new_container.push(custom_version.clone());
-- 
2.43.0


From f2ea57400921c8e9c303720e738a69bd07fa9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:00 +0000
Subject: [PATCH 126/136] fix: count the properties of an unversioned header
 without overflow

---
 .../src/unversioned/header.rs                 | 25 ++++++++++---------
 .../unreal_asset_properties/src/lib.rs        |  6 ++---
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index f5c0837..e4e0205 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -16,7 +16,7 @@ pub struct UnversionedHeaderFragment {
     /// Number of subsequent property values stured
     pub value_num: u8,
     /// First element index of this fragment
-    pub first_num: u8,
+    pub first_num: u32,
     /// Is this the last header fragment?
     pub is_last: bool,
     /// Has zeros
@@ -47,8 +47,8 @@ impl UnversionedHeaderFragment {
     const IS_LAST_MASK: u16 = 0x0100u16;
 
     /// Get last element index of this fragment
-    pub fn get_last_num(&self) -> u8 {
-        self.first_num + self.value_num - 1
+    pub fn get_last_num(&self) -> i64 {
+        i64::from(self.first_num) + i64::from(self.value_num) - 1
     }
 
     /// Read an `UnversionedHeaderFragment` from an asset
@@ -105,7 +105,7 @@ impl UnversionedHeader {
     /// Loads zero mask data from an asset
     fn load_zero_mask_data<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
-        num_bits: u16,
+        num_bits: u32,
     ) -> Result<BitVec<u8, Lsb0>, Error> {
         if num_bits <= 8 {
             let mut data = [0u8; 1];
@@ -135,20 +135,20 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
-        let mut zero_mask_num = 0u16;
-        let mut unmasked_num = 0u16;
+        let mut first_num = 0u32;
+        let mut zero_mask_num = 0u32;
+        let mut unmasked_num = 0u32;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num + u32::from(fragment.skip_num);
+            first_num = fragment.first_num + u32::from(fragment.value_num);
 
             fragments.push(fragment);
 
             match fragment.has_zeros {
-                true => zero_mask_num += fragment.value_num as u16,
-                false => unmasked_num += fragment.value_num as u16,
+                true => zero_mask_num += u32::from(fragment.value_num),
+                false => unmasked_num += u32::from(fragment.value_num),
             };
 
             if fragment.is_last {
@@ -159,7 +159,8 @@ impl UnversionedHeader {
         let (zero_mask, has_non_zero_values) = match zero_mask_num > 0 {
             true => {
                 let mask = UnversionedHeader::load_zero_mask_data(asset, zero_mask_num)?;
-                let has_non_zero_values = unmasked_num > 0 || mask.iter().all(|e| !*e);
+                let has_non_zero_values = unmasked_num > 0
+                    || mask.iter().take(zero_mask_num as usize).any(|e| !*e);
                 (mask, has_non_zero_values)
             }
             false => {
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index a817adf..94af993 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -542,7 +542,7 @@ impl Property {
 
             loop {
                 let current_fragment = header.fragments[header.current_fragment_index];
-                if header.unversioned_property_index > current_fragment.get_last_num() as usize {
+                if header.unversioned_property_index as i64 > current_fragment.get_last_num() {
                     break;
                 }
 
@@ -1580,7 +1580,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
             let fragment = UnversionedHeaderFragment {
                 skip_num: skip_num as u8,
                 value_num: value_num as u8,
-                first_num: start_index as u8,
+                first_num: start_index,
                 is_last: false,
                 has_zeros,
             };
@@ -1607,7 +1607,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
 
     for fragment in fragments.iter().filter(|e| e.has_zeros) {
         for i in 0..fragment.value_num {
-            let is_zero = zero_properties.contains(&((fragment.first_num + i) as u32));
+            let is_zero = zero_properties.contains(&(fragment.first_num + u32::from(i)));
             if !is_zero {
                 has_non_zero_values = true;
             }
-- 
2.43.0


From 01518250bc131d01c77fd1be17080e29f3eec69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:06 +0000
Subject: [PATCH 127/136] fix: do not recurse endlessly reading cloth lod data
 with mappings

---
 .../src/cloth_lod_property.rs                 | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 3bf225e..b7cc1d2 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -112,16 +112,31 @@ impl ClothLodDataProperty {
         _length: i64,
         duplication_index: i32,
     ) -> Result<Self, Error> {
-        let struct_property = StructProperty::custom_header(
+        let struct_type = FName::from_slice("Generic");
+
+        // mappings would turn this struct into ClothLODData again
+        let mut value = Vec::new();
+        let mut unversioned_header = UnversionedHeader::new(asset)?;
+        let new_ancestry = ancestry.with_parent(struct_type.clone());
+        while let Some(property) = Property::new(
             asset,
+            new_ancestry.clone(),
+            unversioned_header.as_mut(),
+            true,
+        )? {
+            value.push(property);
+        }
+
+        let struct_property = StructProperty {
             name,
             ancestry,
-            1,
+            struct_type: Some(struct_type),
+            struct_guid: None,
+            property_guid: None,
             duplication_index,
-            Some(FName::from_slice("Generic")),
-            None,
-            None,
-        )?;
+            serialize_none: true,
+            value,
+        };
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
         let mut transition_up_skin_data = Vec::new();
-- 
2.43.0


From fc51d803188326091f4b246e4bff53cac387a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:54 +0000
Subject: [PATCH 128/136] fix: do not crash on unversioned properties that do
 not fit the mappings

---
 .../src/array_property.rs                       |  8 ++++++--
 .../src/enum_property.rs                        |  7 ++++++-
 unreal_asset/unreal_asset_properties/src/lib.rs | 17 ++++++++++++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 9e3a522..8a5f23a 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -82,9 +82,13 @@ impl ArrayProperty {
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
-        if !asset.has_unversioned_properties() && i64::from(num_entries) > length {
+        let available = match asset.has_unversioned_properties() {
+            true => asset.data_length()? as i64,
+            false => length,
+        };
+        if i64::from(num_entries) > available {
             return Err(Error::invalid_file(format!(
-                "Array property with {num_entries} entries doesn't fit into {length} bytes"
+                "Array property with {num_entries} entries doesn't fit into {available} bytes"
             )));
         }
         let mut entries = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/enum_property.rs b/unreal_asset/unreal_asset_properties/src/enum_property.rs
index f292a18..db894c9 100644
--- a/unreal_asset/unreal_asset_properties/src/enum_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/enum_property.rs
@@ -55,7 +55,12 @@ impl EnumProperty {
                         })?;
                     let value = match enum_index == u8::MAX {
                         true => None,
-                        false => Some(FName::new_dummy(info[enum_index as usize].clone(), 0)),
+                        false => Some(FName::new_dummy(
+                            info.get(enum_index as usize).cloned().ok_or_else(|| {
+                                Error::invalid_file(format!("Invalid enum index: {enum_index}"))
+                            })?,
+                            0,
+                        )),
                     };
 
                     return Ok(EnumProperty {
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 94af993..4b58439 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -547,8 +547,11 @@ impl Property {
                 }
 
                 header.current_fragment_index += 1;
-                header.unversioned_property_index =
-                    header.fragments[header.current_fragment_index].first_num as usize;
+                header.unversioned_property_index = header
+                    .fragments
+                    .get(header.current_fragment_index)
+                    .ok_or_else(PropertyError::no_unversioned_header)?
+                    .first_num as usize;
             }
 
             let mut practicing_unversioned_property_index = header.unversioned_property_index;
@@ -561,13 +564,16 @@ impl Property {
                 })
             })?;
 
+            let mut visited = HashSet::new();
             while practicing_unversioned_property_index >= schema.prop_count as usize {
                 practicing_unversioned_property_index -= schema.prop_count as usize;
 
+                // malformed mappings can contain cycles
                 let new_schema =
                     mappings
                         .schemas
                         .get_by_key(&schema.super_type)
+                        .filter(|_| visited.insert(&schema.super_type))
                         .ok_or_else(|| {
                             PropertyError::no_schema(
                                 parent_name.get_owned_content(),
@@ -581,7 +587,12 @@ impl Property {
             let property = schema
                 .properties
                 .get_by_index(practicing_unversioned_property_index)
-                .unwrap();
+                .ok_or_else(|| {
+                    PropertyError::no_schema(
+                        parent_name.get_owned_content(),
+                        practicing_unversioned_property_index,
+                    )
+                })?;
             header.unversioned_property_index += 1;
 
             name = FName::new_dummy(property.name.clone(), 0);
-- 
2.43.0


From 1fec5c31adba632ba8b6035dee85f4960508a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:11 +0000
Subject: [PATCH 129/136] fix: keep the mod manager running when an update
 fails

---
 unreal_mod_manager/src/background_work.rs | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 89be381..a6618f7 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -299,18 +299,36 @@ where
                 if newer_update.is_some() {
                     drop(newer_update);
                     let update_progress = Arc::clone(&background_thread_data.update_progress);
-                    config
+                    let result = config
                         .update_modloader(Box::new(move |progress| {
                             update_progress
                                 .store(f32::round(progress * 100.0) as i32, Ordering::Release);
                         }))
-                        .unwrap();
+                        .and_then(|_| {
+                            env::current_exe()
+                                .and_then(|path| Command::new(path).spawn())
+                                .map_err(|err| {
+                                    ModLoaderError::io_error_with_message(
+                                        "restart after update".to_owned(),
+                                        err,
+                                    )
+                                })
+                        });
                     background_thread_data
                         .should_update
                         .store(false, Ordering::Release);
 
-                    Command::new(env::current_exe().unwrap()).spawn().unwrap();
-                    break;
+                    match result {
+                        Ok(_) => break,
+                        Err(err) => {
+                            warn!("Update failed: {}", err);
+                            background_thread_data
+                                .data
+                                .lock()
+                                .warnings
+                                .push(ModLoaderWarning::other(format!("Update failed: {err}")));
+                        }
+                    }
                 }
             }
             BackgroundThreadMessage::Integrate(time) => {
-- 
2.43.0


From 40a3c8f93aa10b7b73c3f39feda691e3855e8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:11 +0000
Subject: [PATCH 130/136] fix: let the window close when there is no base
 directory

---
 unreal_mod_manager/src/background_work.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index a6618f7..ed2a3f8 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -217,12 +217,20 @@ where
         start.elapsed().as_millis()
     );
 
-    let mods_path = background_thread_data
-        .data
-        .lock()
-        .mods_path
-        .clone()
-        .unwrap();
+    let mods_path = background_thread_data.data.lock().mods_path.clone();
+    let Some(mods_path) = mods_path else {
+        // nothing can be done without a mods directory, but the error has to be shown until the user quits
+        while let Ok(message) = receiver.recv() {
+            if let BackgroundThreadMessage::Exit = message {
+                break;
+            }
+        }
+
+        background_thread_data
+            .ready_exit
+            .store(true, Ordering::Release);
+        return Ok(());
+    };
 
     let mut last_integration_time = None;
 
-- 
2.43.0


From 43887d115b57f5bd2aa6ca787176a33e57584953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:49 +0000
Subject: [PATCH 131/136] fix: import mod files through a temporary file

---
 unreal_mod_manager/src/background_work.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index ed2a3f8..56956de 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -247,13 +247,25 @@ where
                     .iter()
                     .filter_map(|file| {
                         let file_path = &file.path;
-                        let file_name = file_path.file_name().unwrap();
+                        let Some(file_name) = file_path.file_name() else {
+                            data_guard.warnings.push(ModLoaderWarning::other(format!(
+                                "{} is not a file",
+                                file_path.display()
+                            )));
+                            return None;
+                        };
 
-                        // copy the file to the mods directory
+                        // copy the file to the mods directory, it might also already be there
                         let new_file_path = mods_path.join(file_name);
-                        match fs::copy(file_path, &new_file_path) {
+                        let mut temp_name = file_name.to_os_string();
+                        temp_name.push(".tmp");
+                        let temp_path = mods_path.join(temp_name);
+                        match fs::copy(file_path, &temp_path)
+                            .and_then(|_| fs::rename(&temp_path, &new_file_path))
+                        {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
+                                let _ = fs::remove_file(&temp_path);
                                 data_guard
                                     .warnings
                                     .push(ModLoaderWarning::io_error_with_message(
-- 
2.43.0


From 0cee3048dc2b6ae0976b0772da5b35b17723d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:34 +0000
Subject: [PATCH 132/136] fix: report mods that cannot be read or written
 instead of leaving them out

---
 unreal_mod_integrator/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index afdbee0..4ccfc84 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -409,11 +409,11 @@ pub fn integrate_mods<
         .chain(core_mods)
         .chain(enabled_baked_mods)
         .filter_map(|e| match e {
-            IntegratorMod::File(file_mod) => File::open(&file_mod.path).ok(),
-            IntegratorMod::Baked(baked_mod) => baked_mod.write(paks_path).ok(),
+            IntegratorMod::File(file_mod) => Some(File::open(&file_mod.path).map_err(Error::from)),
+            IntegratorMod::Baked(baked_mod) => Some(baked_mod.write(paks_path)),
             _ => None,
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, _>>()?;
 
     let mut mod_paks = Vec::new();
     let mut read_mods = Vec::new();
-- 
2.43.0


From 3b7ee1e37717f5ebff8f9ec1b3dbfff0e7bc6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:34 +0000
Subject: [PATCH 133/136] fix: report a full disk when writing the integrator
 pak

---
 unreal_mod_integrator/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 4ccfc84..e8ec845 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -555,6 +555,8 @@ pub fn integrate_mods<
 
         let mut writer = BufWriter::new(file);
         generated_pak.write(&mut writer)?;
+        // dropping the writer would ignore errors
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From aab92495170f5dd5ca26d371deab886bc2963b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 134/136] fix: do not start the game with incomplete loader
 settings

---
 unreal_mod_manager/src/background_work.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 56956de..8e28abf 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -810,11 +810,15 @@ where
 
                         fs::create_dir_all(config_location.parent().unwrap())?;
                         let file = std::fs::File::create(&config_location)?;
-                        let writer = std::io::BufWriter::new(file);
+                        let mut writer = std::io::BufWriter::new(file);
 
-                        if let Err(e) = serde_json::to_writer(writer, &data.cpp_loader_config) {
+                        // dropping the writer would ignore errors
+                        let written = serde_json::to_writer(&mut writer, &data.cpp_loader_config)
+                            .map_err(ModLoaderWarning::from)
+                            .and_then(|_| Ok(io::Write::flush(&mut writer)?));
+                        if let Err(e) = written {
                             let _ = fs::remove_file(config_location);
-                            return Err(e.into());
+                            return Err(e);
                         }
 
                         install_manager.prepare_load()?;
-- 
2.43.0


From 6a3e3690090e8f194780cdae3fb029d102edf628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 135/136] fix: do not start the game with an incomplete
 registry file

---
 unreal_mod_manager/src/game_platform_managers/proton.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_mod_manager/src/game_platform_managers/proton.rs b/unreal_mod_manager/src/game_platform_managers/proton.rs
index 24c8252..18961de 100644
--- a/unreal_mod_manager/src/game_platform_managers/proton.rs
+++ b/unreal_mod_manager/src/game_platform_managers/proton.rs
@@ -125,6 +125,8 @@ impl unreal_cpp_bootstrapper::CppLoaderInstallExtension<ModLoaderWarning> for Pr
 
         writeln!(writer, "\"xinput1_3\"=\"native,builtin\"")?;
 
+        // dropping the writer would ignore errors
+        writer.flush()?;
         drop(writer);
 
         let _ = std::process::Command::new("wine")
-- 
2.43.0


From 2a6b848d16d5b22053eeef15034c696709be0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 136/136] fix: report old native libraries that cannot be
 removed

---
 unreal_cpp_bootstrapper/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_cpp_bootstrapper/src/lib.rs b/unreal_cpp_bootstrapper/src/lib.rs
index 2136d22..e452020 100644
--- a/unreal_cpp_bootstrapper/src/lib.rs
+++ b/unreal_cpp_bootstrapper/src/lib.rs
@@ -31,7 +31,11 @@ pub fn bootstrap(
     extract_path: &PathBuf,
     path: &PathBuf,
 ) -> Result<(), CppBootstrapperError> {
-    let _ = fs::remove_dir_all(extract_path);
+    // libraries of mods that are not installed anymore must not stay
+    match fs::remove_dir_all(extract_path) {
+        Err(err) if err.kind() != io::ErrorKind::NotFound => return Err(err.into()),
+        _ => {}
+    }
     fs::create_dir_all(extract_path)?;
 
     let paths = fs::read_dir(path)?;
-- 
2.43.0

