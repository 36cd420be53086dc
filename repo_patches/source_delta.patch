From 869a93c3c20eda2972ab4f93a13224904e71395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 01/58] fix: guess the script cipher when a multi-byte
 character straddles the test data

---
 src/property/lua.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..f9a4c7b 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -75,7 +75,13 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
+            // the last character may be cut in half by the end of the test data
+            let is_text = match std::str::from_utf8(&decoded) {
+                Ok(_) => true,
+                Err(e) => len < self.length && e.error_len().is_none(),
+            };
+
+            if is_text {
                 return Some(keys);
             }
         }
-- 
2.43.0


From 092cf334120b01ea4ce2cf33fd741f8e6e544801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 02/58] fix: recognise archives without version field that hold
 a multiple of 256 entries

---
 src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 771806e..ec6e367 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -98,7 +98,8 @@ impl WzHeader {
         }
 
         if encrypted_version == 0x80 {
-            let entry_count = buf.pread_with::<i32>(self.fstart + 2, LE).ok()?;
+            // without the version field this 0x80 is the marker of a 4 bytes entry count
+            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0


From efe6a633a63d5e91caef3d62a91f29a14cd23562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 03/58] fix: open archives without version field of versions
 771 to 780

---
 src/file.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..1dbb92a 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -185,6 +185,12 @@ impl WzFile {
             /* there has code in maplelib to detect version from maplestory.exe here */
 
             for (ver_to_decode, hash) in version_gen {
+                // there is no encver to check the candidate against
+                let hash = if wz_file_meta.wz_with_encrypt_version_header {
+                    hash
+                } else {
+                    util::version::pkg1::VersionGen::calculate_version_hash(ver_to_decode)
+                };
                 wz_file_meta.hash = hash as usize;
                 wz_file_meta.wz_version_header = ver_to_decode;
                 wz_dir.hash = hash as u64;
@@ -201,7 +207,12 @@ impl WzFile {
             return Err(Error::ErrorGameVerHash);
         }
 
-        wz_file_meta.hash = version_gen.check_and_get_version_hash() as usize;
+        wz_file_meta.hash = if wz_file_meta.wz_with_encrypt_version_header {
+            version_gen.check_and_get_version_hash() as usize
+        } else {
+            util::version::pkg1::VersionGen::calculate_version_hash(wz_file_meta.patch_version)
+                as usize
+        };
         wz_dir.hash = wz_file_meta.hash as u64;
 
         let children =
-- 
2.43.0


From 7e7347f264c8bf2e1ed6cb81818e42d2775f8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 04/58] fix: read the first name at the right place when the
 first entry is stored by reference

---
 src/util/string_decryptor/mod.rs | 4 ++--
 src/util/version/mod.rs          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..7ceb8d1 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -76,11 +76,11 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
     let dir_type = WzDirectoryType::from(reader.read_u8()?);
 
     let wz_name_meta = match dir_type {
-        // the first entry should always not be offset thou
+        // the offset is relative to fstart, like in every other entry
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..618de58 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -135,11 +135,11 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
     let dir_type = WzDirectoryType::from(reader.read_u8()?);
 
     let _wz_name = match dir_type {
-        // the first entry should always not be offset thou
+        // the offset is relative to fstart, like in every other entry
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart + str_offset as usize;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
             let meta = reader.read_wz_string_meta_at(offset + 1)?;
             reader.try_resolve_wz_string_meta(
-- 
2.43.0


From 911a4b9befc30d2099fb6d0aad867b8b440224c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 05/58] fix: guess the cipher from the first entry that carries
 a name

---
 src/util/string_decryptor/mod.rs | 9 ++++++++-
 src/util/version/mod.rs          | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 7ceb8d1..b748912 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -73,7 +73,14 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
-    let dir_type = WzDirectoryType::from(reader.read_u8()?);
+    let mut dir_type = WzDirectoryType::from(reader.read_u8()?);
+
+    // skip the leading entries that carry no name
+    while dir_type == WzDirectoryType::UnknownType && entry_count > 1 {
+        reader.skip(4 + 4 + 2);
+        entry_count -= 1;
+        dir_type = WzDirectoryType::from(reader.read_u8()?);
+    }
 
     let wz_name_meta = match dir_type {
         // the offset is relative to fstart, like in every other entry
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 618de58..56122db 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -132,7 +132,14 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         return Err(reader::Error::DecryptError(reader.pos.get()));
     }
 
-    let dir_type = WzDirectoryType::from(reader.read_u8()?);
+    let mut dir_type = WzDirectoryType::from(reader.read_u8()?);
+
+    // skip the leading entries that carry no name
+    while dir_type == WzDirectoryType::UnknownType && entry_count > 1 {
+        reader.skip(4 + 4 + 2);
+        entry_count -= 1;
+        dir_type = WzDirectoryType::from(reader.read_u8()?);
+    }
 
     let _wz_name = match dir_type {
         // the offset is relative to fstart, like in every other entry
-- 
2.43.0


From c2a35d50aef8056a64b9e717dfc8bd6c1672c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 06/58] fix: keep texts with supplementary characters whole
 when creating a WzString

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From ded5767d66d441e4217a0f97a90598e6db80895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 07/58] fix: read archive-directory names of the greatest
 length

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..a0a6488 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
-- 
2.43.0


From 740ae79dfa05ed734bd32c1463f6b9747b0d6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 08/58] fix: encrypt archive-directory texts with the cipher
 they are read with

---
 src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index a0a6488..cd218f0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -255,7 +255,11 @@ impl<T: AsRef<[u8]>> WzBaseReader<T> {
         if meta_type == &WzStringType::Empty {
             return Vec::new();
         }
-        let mut keys = self.keys.write().unwrap();
+        let keys = match meta_type {
+            WzStringType::Pkg2Dir => &self.pkg2_keys,
+            _ => &self.keys,
+        };
+        let mut keys = keys.write().unwrap();
         encrypt_str(keys.deref_mut(), str, meta_type)
     }
 }
-- 
2.43.0


From 32a8e4e56701abf37889b8e554235a77e5d3cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 09/58] fix: report out-of-range string lengths and offsets
 instead of overflowing

---
 src/reader.rs | 92 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index cd218f0..5b1ab9f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -97,11 +97,18 @@ pub trait Reader {
             _ => WzStringType::Ascii,
         }
     }
+    #[inline]
+    fn checked_range(&self, offset: usize, length: usize) -> Result<std::ops::Range<usize>> {
+        match offset.checked_add(length) {
+            Some(end) => Ok(offset..end),
+            None => Err(Error::OutOfBounds(usize::MAX, self.get_size())),
+        }
+    }
     fn resolve_unicode_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_decrypt_slice(self.checked_range(offset, length)?)?;
         let mut strvec = Vec::with_capacity(length / 2);
 
-        for (i, chunk) in decrypted.chunks(2).enumerate() {
+        for (i, chunk) in decrypted.chunks_exact(2).enumerate() {
             let c = u16::from_le_bytes([chunk[0], chunk[1]]);
             strvec.push(resolve_unicode_char(c, i as i32));
         }
@@ -109,7 +116,7 @@ pub trait Reader {
         Ok(strvec)
     }
     fn resolve_ascii_raw(&self, offset: usize, length: usize) -> Result<Vec<u8>> {
-        let mut decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let mut decrypted = self.get_decrypt_slice(self.checked_range(offset, length)?)?;
 
         decrypted.iter_mut().enumerate().for_each(|(i, byte)| {
             *byte = resolve_ascii_char(*byte, i as i32);
@@ -118,10 +125,10 @@ pub trait Reader {
         Ok(decrypted)
     }
     fn resolve_pkg2_dir_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_pkg2_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_pkg2_decrypt_slice(self.checked_range(offset, length)?)?;
 
         Ok(decrypted
-            .chunks(2)
+            .chunks_exact(2)
             .map(|c| u16::from_le_bytes([c[0], c[1]]))
             .collect())
     }
@@ -339,7 +346,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
@@ -347,7 +354,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn skip(&self, len: usize) {
-        self.pos.set(self.pos.get() + len);
+        self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
     pub fn save_pos(&self) {
@@ -361,70 +368,70 @@ impl<'a> WzSliceReader<'a> {
     pub fn read_u8(&self) -> Result<u8> {
         let pos = self.pos.get();
         let res = self.read_u8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_u16(&self) -> Result<u16> {
         let pos = self.pos.get();
         let res = self.read_u16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_u32(&self) -> Result<u32> {
         let pos = self.pos.get();
         let res = self.read_u32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_u64(&self) -> Result<u64> {
         let pos = self.pos.get();
         let res = self.read_u64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_i8(&self) -> Result<i8> {
         let pos = self.pos.get();
         let res = self.read_i8_at(pos);
-        self.pos.set(pos + 1);
+        self.pos.set(pos.saturating_add(1));
         res
     }
     #[inline]
     pub fn read_i16(&self) -> Result<i16> {
         let pos = self.pos.get();
         let res = self.read_i16_at(pos);
-        self.pos.set(pos + 2);
+        self.pos.set(pos.saturating_add(2));
         res
     }
     #[inline]
     pub fn read_i32(&self) -> Result<i32> {
         let pos = self.pos.get();
         let res = self.read_i32_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_i64(&self) -> Result<i64> {
         let pos = self.pos.get();
         let res = self.read_i64_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
     pub fn read_float(&self) -> Result<f32> {
         let pos = self.pos.get();
         let res = self.read_float_at(pos);
-        self.pos.set(pos + 4);
+        self.pos.set(pos.saturating_add(4));
         res
     }
     #[inline]
     pub fn read_double(&self) -> Result<f64> {
         let pos = self.pos.get();
         let res = self.read_double_at(pos);
-        self.pos.set(pos + 8);
+        self.pos.set(pos.saturating_add(8));
         res
     }
     #[inline]
@@ -443,6 +450,19 @@ impl<'a> WzSliceReader<'a> {
             Ok((-sl).into())
         }
     }
+    /// stored character count to byte length
+    #[inline]
+    fn checked_str_len(&self, len: i32, char_size: u32) -> Result<u32> {
+        u32::try_from(len)
+            .ok()
+            .and_then(|len| len.checked_mul(char_size))
+            .ok_or(Error::OutOfBounds(len as usize, self.get_size()))
+    }
+    #[inline]
+    fn checked_offset(&self, base: usize, append_offset: i32) -> Result<usize> {
+        base.checked_add_signed(append_offset as isize)
+            .ok_or(Error::OutOfBounds(usize::MAX, self.get_size()))
+    }
     pub fn read_unicode_string(&self, sl: i8) -> Result<String> {
         let len = self.read_unicode_str_len(sl)?;
 
@@ -450,7 +470,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = self.checked_str_len(len, 2)? as usize;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -460,7 +480,7 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = self.checked_str_len(self.read_ascii_str_len(sl)?, 1)? as usize;
         if len == 0 {
             return Ok(String::new());
         }
@@ -490,7 +510,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = self.checked_str_len(self.read_i32()?, 2)?;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -504,8 +524,8 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
-                    let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
+                    let length = self.checked_str_len(self.read_i32()?, 1)?;
+                    let meta = WzStringMeta::new_ascii(self.pos.get(), length);
                     self.skip(length as usize);
                     Ok(meta)
                 } else {
@@ -590,7 +610,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(self.checked_offset(offset, append_offset)?)
             }
             _ => Ok(String::new()),
         }
@@ -603,7 +623,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(self.checked_offset(wz_img_offset, append_offset)?)
             }
             _ => Ok(WzStringMeta::empty()),
         }
@@ -840,8 +860,12 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
     match string_type {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
-            let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let append_offset = read_i32_at(buf, 1)?;
+            let target = offset
+                .checked_add_signed(append_offset as isize)
+                .and_then(|start| buf.get(start..))
+                .ok_or(Error::OutOfBounds(offset, buf.len()))?;
+            read_wz_string(target)
         }
         _ => Ok(String::new()),
     }
@@ -875,7 +899,7 @@ pub fn read_wz_long(buf: &[u8], offset: Option<usize>) -> Result<i64> {
 
 pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     let len;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MAX {
         len = read_i32_at(buf, 0)?;
@@ -888,16 +912,16 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len)
+        .map(|i| read_u16_at(buf, i as usize * 2 + offset).map(|c| resolve_unicode_char(c, i)))
+        .collect::<Result<Vec<u16>>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
 
 pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     let len: i32;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MIN {
         len = read_i32_at(buf, 0)?;
@@ -910,9 +934,9 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len)
+        .map(|i| read_u8_at(buf, i as usize + offset).map(|c| resolve_ascii_char(c, i)))
+        .collect::<Result<Vec<u8>>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
-- 
2.43.0


From 1d64f1f9440832046db67d0e65109cc86bc2d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 10/58] fix: drop the grown keys when the iv of an EcbDecryptor
 changes

---
 src/util/string_decryptor/ecb_decryptor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..0a9682f 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        // what has been grown so far belongs to the previous iv
+        self.keys.clear();
+        self.without_decrypt = self.iv == [0; 4];
     }
 
     fn get_iv_hash(&self) -> u64 {
-- 
2.43.0


From 92278884a8ba1cfdb930b2fba5a7da4a1213053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 11/58] fix: answer key positions of the all-zero iv instead of
 panicking

---
 src/util/string_decryptor/ecb_decryptor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 0a9682f..22073cb 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -86,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From c59af849aa565a7ac38a470e1638380d986b3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 12/58] fix: reject huge patch versions instead of overflowing

---
 src/util/version/pkg1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..98c023b 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,9 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash
+                .wrapping_mul(32)
+                .wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0


From 4058b99212894e68d44a735e3542a7d89af95c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 13/58] fix: accept pkg2 directories whose encrypted entry
 count is negative

---
 src/directory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..314d1a4 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -431,7 +431,8 @@ impl WzDirectoryEntry {
                 reader.read_wz_int()? as i64
             };
 
-            if entry_count < 0 {
+            // the entry count of pkg2 is encrypted, any value is fine
+            if reader.header.ident == PKGVersion::V1 && entry_count < 0 {
                 return Err(Error::InvalidWzVersion);
             }
         }
-- 
2.43.0


From 3904a967dc06099d574f20c96d50330e2ec387e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 14/58] fix: reject entry sizes that overflow instead of
 panicking

---
 src/directory.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 314d1a4..d1016f1 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -412,7 +412,11 @@ impl WzDirectoryEntry {
     }
 
     pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
+        let is_in_file = self
+            .offset
+            .checked_add(self.size)
+            .is_some_and(|end| reader.is_valid_pos(end));
+        if !is_in_file {
             return Err(Error::InvalidWzVersion);
         }
 
-- 
2.43.0


From 8745af143f20cdb8942afed342268d83947f353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 15/58] fix: find pkg2 version hashes whose rotation is zero

---
 src/util/version/pkg2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..361fb20 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -410,7 +410,12 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // the current bit is not in v_hash yet
+            let known_v_bit = if future_v_idx == bit_idx {
+                v_bit
+            } else {
+                (v_hash >> future_v_idx) & 1
+            };
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From f3b05d8f541248b979b5c47705dfbbe1c78ba8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 16/58] fix: include the greatest hash in the brute force
 search

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 361fb20..5d7b9a9 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -441,12 +441,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From 6c96d7d1c2e13ea9e5a865b45e0057128f8ed184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 17/58] fix: go on with the next generator when one finds no
 hash

---
 src/util/version/pkg2.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 5d7b9a9..68f2d8a 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -349,25 +349,15 @@ impl Iterator for VersionGen {
     type Item = u32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // use the current iterator if it exists
-        if let Some(current_iter) = self.current_iter.as_mut() {
-            if let Some(result) = current_iter.next() {
+        loop {
+            // use the current iterator if it exists
+            if let Some(result) = self.current_iter.as_mut().and_then(|iter| iter.next()) {
                 return Some(result);
-            } else {
-                self.current_iter = None;
             }
-        }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
-            }
+            // try using the next generator
+            self.current_iter = Some(self.generators.pop()?.get_iter());
         }
-
-        // no more generators to try
-        None
     }
 }
 
-- 
2.43.0


From 24ece3788a29452fdef68f5a9f09f3f19936406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 18/58] fix: don't take short pkg2 names in their own cipher
 for plain ones

---
 src/file.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 1dbb92a..4521d86 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,4 +1,6 @@
 use crate::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
+use crate::util::string_decryptor::DecrypterType;
+use crate::util::version::{get_key_by_maple_version, WzMapleVersion};
 use crate::{
     directory, reader, util, util::profile, util::string_decryptor, util::version::PKGVersion,
     wz_image, SharedWzStringDecryptor, WzDirectory, WzNodeArc, WzNodeArcVec, WzNodeCast,
@@ -105,13 +107,23 @@ impl WzFile {
                 }
             })
             .or_else(|| string_decryptor::guess_decryptor_from_wz_file(&map));
-        let string_decryptor_verified = verified_keys.is_some();
+        let mut string_decryptor_verified = verified_keys.is_some();
 
-        let reader = if let Some(keys) = verified_keys {
+        let mut reader = Arc::new(if let Some(keys) = verified_keys {
             WzReader::new(map).with_existing_keys(keys.clone())
         } else {
             WzReader::new(map)
-        };
+        });
+
+        // a short pkg2 name in its own cipher also passes as a normal string, don't trust the
+        // keys unless the entries can be read with them
+        if string_decryptor_verified
+            && reader.header.ident == PKGVersion::V2
+            && !is_plain_pkg2(&reader)
+        {
+            string_decryptor_verified = false;
+            reader = Arc::new(Arc::into_inner(reader).unwrap().with_iv([0; 4]));
+        }
 
         let offset = reader.header.data_start;
 
@@ -128,7 +140,7 @@ impl WzFile {
             offset,
             block_size,
             is_parsed: false,
-            reader: Arc::new(reader),
+            reader,
             wz_file_meta,
         })
     }
@@ -380,10 +392,10 @@ impl WzFile {
     }
 
     fn update_keys(&self, profile: &profile::WzProfile, hash1: u64, target_hash: u64) {
-        let iv = if profile.should_be_pkg2_64() {
-            get_kmst1202_key(hash1, target_hash)
-        } else {
-            get_kmst1199_key(hash1 as u32, target_hash as u32) as u64
+        let iv = match profile.decryptor_type {
+            DecrypterType::KMST1198 => get_key_by_maple_version(WzMapleVersion::KMST1198) as u64,
+            DecrypterType::KMST1202 => get_kmst1202_key(hash1, target_hash),
+            _ => get_kmst1199_key(hash1 as u32, target_hash as u32) as u64,
         };
         self.reader
             .pkg2_keys
@@ -392,3 +404,31 @@ impl WzFile {
             .set_iv(iv, profile.decryptor_type);
     }
 }
+
+/// Check the pkg2 file is one of the versions that doesn't have its own cipher for names, and can be read
+/// with the keys of the reader.
+fn is_plain_pkg2(reader: &Arc<WzReader>) -> bool {
+    let header = &reader.header;
+
+    if header.is_pkg2_64() || reader.pkg2_keys.read().unwrap().is_pkg2() {
+        return false;
+    }
+
+    let mut wz_dir = WzDirectory::new(header.data_start, reader.map.len(), reader, false);
+
+    if wz_dir.prepare_entries().is_err() {
+        return false;
+    }
+
+    profile::get_all_pkg2_profiles()
+        .into_iter()
+        .filter(|profile| profile.decryptor_type == DecrypterType::Unknown)
+        .any(|profile| {
+            let mut hashes = profile.get_hash_iter(header.hash1, header.hash2);
+            wz_dir.profile = profile;
+            hashes.any(|hash| {
+                wz_dir.hash = hash;
+                wz_dir.calculate_offset_and_verify().is_ok()
+            })
+        })
+}
-- 
2.43.0


From 403886181d0b0ef8daee0be8064ff481faaaec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 19/58] fix: find nodes below canvases, convexes and raw data
 by path without parsing

get_node took the head of every extended property for the one of a plain property,
and went on reading garbage when a name in the middle of the path was missing.
---
 src/util/parse_property.rs | 64 ++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..320eae7 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -416,17 +416,19 @@ pub fn get_node(
         return Err(WzPropertyParseError::NodeNotFound);
     }
 
-    let mut pathes = path.split('/');
-    let mut current_path = pathes.next();
+    let mut current_name = path;
 
-    while let Some(current_name) = current_path {
+    'descend: loop {
         let entry_count = reader.read_wz_int()?;
-        let next_path = pathes.next();
+        let (name_to_find, rest_path) = match current_name.split_once('/') {
+            Some((name, rest)) => (name, Some(rest)),
+            None => (current_name, None),
+        };
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
 
-            if name == current_name && next_path.is_none() {
+            if name == name_to_find && rest_path.is_none() {
                 let result = parse_property_node(
                     name.into(),
                     property_type,
@@ -473,13 +475,47 @@ pub fn get_node(
                     }
                 }
                 9 => {
-                    if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
+                    if let (true, Some(rest_path)) = (name == name_to_find, rest_path) {
+                        let block_size = reader.read_u32()?;
+                        let end_of_block = reader.pos.get() + block_size as usize;
+                        let extend_type = reader.read_wz_string_block(origin_offset)?;
+
+                        let has_child = match extend_type.as_str() {
+                            "Property" => true,
+                            "Canvas" => {
+                                reader.skip(1);
+                                reader.read_u8()? == 1
+                            }
+                            "RawData" => reader.read_u8()? == 0x01 && reader.read_u8()? == 1,
+                            // the items inside have neither name nor size, there is no way to skip them
+                            "Shape2D#Convex2D" => {
+                                let (_, convex, _) = parse_more(
+                                    None,
+                                    org_reader,
+                                    reader,
+                                    end_of_block,
+                                    origin_offset,
+                                    name.into(),
+                                    &extend_type,
+                                )?;
+                                let node = convex
+                                    .read()
+                                    .unwrap()
+                                    .at_path(rest_path)
+                                    .ok_or(WzPropertyParseError::NodeNotFound)?;
+                                let name = node.read().unwrap().name.clone();
+                                return Ok((name, node));
+                            }
+                            _ => false,
+                        };
+
+                        if !has_child {
+                            return Err(WzPropertyParseError::NodeNotFound);
+                        }
+
                         reader.skip(2);
-                        break;
+                        current_name = rest_path;
+                        continue 'descend;
                     } else {
                         let block_size = reader.read_u32()?;
                         reader.skip(block_size as usize);
@@ -495,10 +531,6 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
-            break;
-        }
+        return Err(WzPropertyParseError::NodeNotFound);
     }
-
-    Err(WzPropertyParseError::NodeNotFound)
 }
-- 
2.43.0


From d1c3de64f285dc280c390e70df928f47c3ce71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 20/58] fix: reach the payload of text and script images by
 path without parsing

---
 src/wz_image.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..207cc36 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -124,8 +124,14 @@ impl WzImage {
         reader.seek(self.offset);
         let header_byte = reader.read_u8()?;
 
-        if header_byte != WzImageHeaderType::WithoutOffset as u8 {
-            return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
+        if self.name.ends_with(".txt") || header_byte != WzImageHeaderType::WithoutOffset as u8 {
+            // text or script, there is only the payload
+            let (childs, _) = self.resolve_children(None)?;
+
+            return childs
+                .into_iter()
+                .find_map(|(name, node)| (name.as_str() == path).then_some(node))
+                .ok_or(util::WzPropertyParseError::NodeNotFound.into());
         } else {
             let name = reader.read_wz_string()?;
             let value = reader.read_u16()?;
-- 
2.43.0


From 96c8b1911131e77a2aa1f3ee6135556125bfa49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 21/58] fix: find the image of a path by its type instead of
 the first '.img' in it

A path through a property with '.img' in its name lost its tail, and a path that ends at an
image without it panicked.
---
 src/util/node_util.rs | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..f580ca1 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,4 @@
-use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast};
+use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
 use std::sync::Arc;
 
 #[inline]
@@ -110,34 +110,20 @@ pub fn get_image_node_from_path<'a>(
     node: &'_ WzNodeArc,
     path: &'a str,
 ) -> Option<(WzNodeArc, &'a str)> {
-    if path.is_empty() {
-        return None;
-    }
-
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
-    let mut slash_index = 0;
-    for split_path in path.split('/') {
-        let target = node.read().unwrap().at(split_path);
-        if let Some(target) = target {
-            node = target;
-            slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
-                return Some((node, rest));
-            }
-        } else {
-            return None;
+    let mut rest_path = path;
+
+    // the image is found by its type, a name with `.img` inside can also belong to a property or a directory
+    while let Some((name, rest)) = rest_path.split_once('/') {
+        let target = node.read().unwrap().at(name)?;
+        if matches!(
+            target.read().unwrap().object_type,
+            WzObjectType::Image(_) | WzObjectType::MsImage(_)
+        ) {
+            return Some((target, rest));
         }
+        node = target;
+        rest_path = rest;
     }
     None
 }
-- 
2.43.0


From 44f1707fed3b9a0913320b5ca0739abaacc14d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 22/58] fix: let an unparsed directory or ms file be parsed
 again

A directory kept its verified state, so the next parse found nothing, and ms files were not
unparsed at all.
---
 src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..ebc5f4a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,10 +234,14 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From b38094d8588cd9fb63d70aa17521843df2f93301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 23/58] fix: leave links unresolved that would put a node below
 itself

Walking, exporting or dropping such a tree never ended (or never released it).
---
 src/util/node_util.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index f580ca1..4966397 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,5 @@
 use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
+use std::collections::HashSet;
 use std::sync::Arc;
 
 #[inline]
@@ -52,6 +53,33 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     pathes.join("/")
 }
 
+/// Does `parent` end up below itself when `target` becomes its child.
+fn makes_cycle(parent: &WzNodeArc, target: &WzNodeArc) -> bool {
+    let mut ancestor = Some(Arc::clone(parent));
+    while let Some(current) = ancestor {
+        if Arc::ptr_eq(&current, target) {
+            return true;
+        }
+        /* the one it can't read is the WzImage currently parsing */
+        ancestor = current.try_read().ok().and_then(|n| n.parent.upgrade());
+    }
+
+    /* other way around, nodes in target can already be replaced by the node outside of it */
+    let mut visited = HashSet::new();
+    let mut stack = vec![Arc::clone(target)];
+    while let Some(current) = stack.pop() {
+        if Arc::ptr_eq(&current, parent) {
+            return true;
+        }
+        if visited.insert(Arc::as_ptr(&current)) {
+            if let Ok(current) = current.try_read() {
+                stack.extend(current.children.values().cloned());
+            }
+        }
+    }
+    false
+}
+
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
@@ -88,7 +116,8 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
             None
         };
 
-        if let Some(target_node) = uol_target {
+        /* a node must not be found below itself, the tree would never end */
+        if let Some(target_node) = uol_target.filter(|target| !makes_cycle(&node_parent, target)) {
             let node_name = node.read().unwrap().name.clone();
 
             /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-- 
2.43.0


From 0b44bdd3fdfed6cb5eea4193a89c783d044a97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:05 +0000
Subject: [PATCH 24/58] fix: don't hold the locks of all ancestors while
 walking

A callback that parsed or wrote one of them, as get_image does to follow an outlink, locked
itself out.
---
 src/util/node_util.rs | 2 +-
 src/util/walk.rs      | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 4966397..6321451 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -22,7 +22,7 @@ pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Optio
     let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
 
     if force_parse {
-        parent_wz_base.write().unwrap().at_path_parsed(path).ok()
+        parent_wz_base.read().unwrap().at_path_parsed(path).ok()
     } else {
         parent_wz_base.read().unwrap().at_path(path)
     }
diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..11b03bc 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -11,8 +11,10 @@ pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
 
     f(node);
 
-    for child in node.read().unwrap().children.values() {
-        walk_node(child, force_parse, f);
+    // don't hold the lock on the way down, `f` is free to parse any node, e.g. to resolve an outlink
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+    for child in children {
+        walk_node(&child, force_parse, f);
     }
 
     if force_parse && matches!(node.read().unwrap().object_type, WzObjectType::Image(_)) {
-- 
2.43.0


From 2b3f6be7378df1bb64d7b3b367e26b1ec964067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 25/58] fix: don't hold a canvas locked while its links are
 followed, and end link cycles

An outlink that passes the canvas itself locked itself out, links in a circle never ended.
---
 src/property/png.rs | 58 +++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..d5e500f 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,31 +53,49 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
-            }
+    let mut visited = vec![Arc::clone(node)];
+    let mut current = Arc::clone(node);
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+    while let Some(target) = resolve_image_link(&current)? {
+        if visited.iter().any(|node| Arc::ptr_eq(node, &target)) {
+            return Err(WzPngParseError::LinkError);
+        }
+        visited.push(Arc::clone(&target));
+        current = target;
+    }
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+    let node_read = current.read().unwrap();
+    match &node_read.object_type {
+        WzObjectType::Property(WzSubProperty::PNG(png)) => png.extract_png(),
+        _ => Err(WzPngParseError::NotPngProperty),
+    }
+}
 
-            png.extract_png()
+/// Get the node that `_inlink` or `_outlink` leads to, the node itself must not be locked
+/// because it can be on the way of the link.
+fn resolve_image_link(node: &WzNodeArc) -> Result<Option<WzNodeArc>, WzPngParseError> {
+    let (inlink, outlink) = {
+        let node_read = node.read().unwrap();
+        if !matches!(
+            node_read.object_type,
+            WzObjectType::Property(WzSubProperty::PNG(_))
+        ) {
+            return Err(WzPngParseError::NotPngProperty);
         }
-        _ => Err(WzPngParseError::NotPngProperty),
+        (node_read.at("_inlink"), node_read.at("_outlink"))
+    };
+
+    let inlink_target = inlink
+        .and_then(|node| resolve_string_from_node(&node).ok())
+        .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
+
+    if inlink_target.is_some() {
+        return Ok(inlink_target);
     }
+
+    Ok(outlink
+        .and_then(|node| resolve_string_from_node(&node).ok())
+        .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true)))
 }
 
 #[derive(Debug, Clone, Default, PartialEq, Eq)]
-- 
2.43.0


From 17214e615a76cd1083676ba14bb8f4665fccdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 26/58] fix: resolve '.' in links as documented

---
 src/util/node_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 6321451..e9777a8 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -46,7 +46,7 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     for p in uol_path.split('/') {
         if p == ".." && !pathes.is_empty() {
             pathes.pop();
-        } else {
+        } else if p != "." {
             pathes.push(p);
         }
     }
@@ -91,7 +91,7 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
         .try_as_uol()
         .and_then(|s| s.get_string().ok())
     {
-        let mut pathes = uol_target_path.split('/');
+        let mut pathes = uol_target_path.split('/').filter(|name| *name != ".");
 
         let first = if let Ok(node) = node.try_read() {
             node.at_relative("..")
-- 
2.43.0


From a45f206c0125ca7336a1b64453ca679fd7b7d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 27/58] fix: decode DXT canvases whose width is not a multiple
 of 4

---
 src/property/png.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index d5e500f..368ffd0 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -234,8 +234,7 @@ impl WzPng {
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
                 Ok((self.width * self.height * 4) as usize)
             }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 => {
                 Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
             }
             WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
@@ -400,7 +399,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -422,7 +421,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -432,8 +431,9 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // blocks at the right and the bottom can reach over the edge
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -497,7 +497,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -520,7 +520,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -531,8 +531,9 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // blocks at the right and the bottom can reach over the edge
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From 47fd39c36f229dae5803fe4fbfbdb135e3d05988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 28/58] fix: decode BC7 canvases whose size is not a multiple
 of 4

---
 src/property/png.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 368ffd0..c7ed2db 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -234,10 +234,12 @@ impl WzPng {
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
                 Ok((self.width * self.height * 4) as usize)
             }
-            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 => {
+            WzPngFormat::DXT3
+            | WzPngFormat::DXT3SM
+            | WzPngFormat::DXT5
+            | WzPngFormat::BC7 => {
                 Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
             WzPngFormat::A8 => Ok((self.width * self.height) as usize),
             WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
             WzPngFormat::RGB565_517 => {
-- 
2.43.0


From 5774b346ffe4f3f894c1b029387d76bfa3714abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 29/58] fix: report broken canvas data as an error instead of
 panicking

---
 src/property/png.rs        | 58 ++++++++++++++++++++++++--------------
 src/util/parse_property.rs |  2 +-
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index c7ed2db..1028823 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -31,6 +31,9 @@ pub enum WzPngParseError {
     #[error("Unknown format: {0:?}")]
     UnknownFormat(WzPngFormat),
 
+    #[error("Not enough pixel data, expected {0} bytes but got {1}")]
+    NotEnoughData(usize, usize),
+
     #[error("Unsupported header: {0}")]
     UnsupportedHeader(i32),
 
@@ -188,7 +191,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -200,7 +203,7 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
@@ -226,28 +229,29 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
-        match self.format() {
+        let (width, height) = (self.width as usize, self.height as usize);
+        let size = match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
+            | WzPngFormat::R16 => width.saturating_mul(height).saturating_mul(2),
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
+                width.saturating_mul(height).saturating_mul(4)
             }
             WzPngFormat::DXT3
             | WzPngFormat::DXT3SM
             | WzPngFormat::DXT5
-            | WzPngFormat::BC7 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
-            }
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
-            WzPngFormat::RGB565_517 => {
-                /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
-            }
-            _ => Err(WzPngParseError::UnknownFormat(self.format())),
-        }
+            | WzPngFormat::BC7 => width
+                .div_ceil(4)
+                .saturating_mul(height.div_ceil(4))
+                .saturating_mul(16),
+            WzPngFormat::A8 => width.saturating_mul(height),
+            WzPngFormat::RGBA32Float => width.saturating_mul(height).saturating_mul(16),
+            /* 2 bytes for every 16 * 16 pixels */
+            WzPngFormat::RGB565_517 => (width / 16).saturating_mul(height / 16).saturating_mul(2),
+            _ => return Err(WzPngParseError::UnknownFormat(self.format())),
+        };
+        Ok(size)
     }
     fn get_raw_data(&self, data: &[u8]) -> Result<Vec<u8>, WzPngParseError> {
         let capacity = self.get_buff_size()?;
@@ -273,10 +277,12 @@ impl WzPng {
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_i32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            let data = self
+                .reader
+                .get_slice_or_error(offset..offset.saturating_add(block_size))?;
             offset += block_size;
 
             decrypted.extend_from_slice(data);
@@ -289,12 +295,17 @@ impl WzPng {
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        inflate(false, decrypted.get(2..).unwrap_or_default(), capacity)
     }
 }
 
 #[inline]
 fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
+    /* deflate never expands the data more than 1032 times, don't allocate for what can't be there */
+    if capacity / 1032 > data.len() {
+        return Err(WzPngParseError::NotEnoughData(capacity, data.len()));
+    }
+
     let mut deflater = Decompress::new(with_header);
     let mut result = Vec::with_capacity(capacity);
 
@@ -302,6 +313,11 @@ fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, W
         return Err(WzPngParseError::from(e));
     };
 
+    if result.len() < capacity {
+        return Err(WzPngParseError::NotEnoughData(capacity, result.len()));
+    }
+    result.truncate(capacity);
+
     Ok(result)
 }
 
@@ -557,7 +573,7 @@ fn get_image_from_dxt5(
 
 fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8> {
     /* pixels is 256 times of raw_data */
-    let mut pixels: Vec<u8> = vec![0; (width * height * 2) as usize];
+    let mut pixels: Vec<u8> = vec![0; width as usize * height as usize * 2];
     let mut line_index: usize = 0;
     // 16 probably means rgb565, it store 2 bytes for each pixel.
     let j_steps = (height / 16) as usize;
@@ -800,7 +816,7 @@ fn get_image_from_rgb565(
     img_buffer
         .enumerate_pixels_mut()
         .try_for_each::<_, Result<(), WzPngParseError>>(|(x, y, pixel)| {
-            let i = (x + y * width) as usize * 2;
+            let i = (x as usize + y as usize * width as usize) * 2;
             let color = reader::read_u16_at(raw_data, i)?;
             *pixel = Rgb::<u8>::from_rgb565(color);
             Ok(())
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 320eae7..9f94ea0 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -245,7 +245,7 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.saturating_sub(1).max(0) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
-- 
2.43.0


From 615a2d38ee24394f680eeb6fee2a97bed67fdaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 30/58] fix: read salts longer than 127 characters of ms files

---
 src/ms/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..cfcee1c 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -67,7 +67,7 @@ impl MsHeader {
         // plus 1 and skip 3 bytes
         offset += 4;
         let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
+        let salt_byte_len = salt_len as usize * 2;
         let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
         offset += salt_byte_len;
 
-- 
2.43.0


From 8797c1db782dd31672050768d59b5044a57b5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 31/58] fix: wrap the key arithmetic of ms files instead of
 overflowing

---
 src/ms/file.rs   |  5 +++--
 src/ms/header.rs | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..b850c32 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -85,7 +85,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -161,7 +161,8 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i]
+                ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
diff --git a/src/ms/header.rs b/src/ms/header.rs
index cfcee1c..bf93d0d 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -84,7 +84,7 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
@@ -111,7 +111,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -169,7 +172,7 @@ impl MsHeader {
         let salt_string = (0..salt_len as usize)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                let b = ((a | 0x4B) << 1).wrapping_sub(a).wrapping_sub(75);
                 b as char
             })
             .collect::<String>();
@@ -181,7 +184,7 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
-- 
2.43.0


From 9efab14f024b4c3be97d2518743f5a3c4bdd36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 32/58] fix: a salt length that does not fit is no panic when
 the kind of a ms file is probed

---
 src/ms/header.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index bf93d0d..3d055cc 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -23,6 +23,8 @@ pub enum Error {
     UnsupportedSnowVersion(u8),
     #[error("Unsupported chacha20 version, expected 4 but got {0}")]
     UnsupportedChacha20Version(u8),
+    #[error("Invalid salt length {0}")]
+    InvalidSaltLength(usize),
     #[error("Hash mismatch, expected {0} but got {1}")]
     HashMismatch(i32, i32),
 }
@@ -58,7 +60,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -67,8 +69,11 @@ impl MsHeader {
         // plus 1 and skip 3 bytes
         offset += 4;
         let salt_len = hashed_salt_len ^ rand_bytes[0];
+        if salt_len as usize > rand_byte_count {
+            return Err(Error::InvalidSaltLength(salt_len as usize));
+        }
         let salt_byte_len = salt_len as usize * 2;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len as usize)
@@ -90,7 +95,7 @@ impl MsHeader {
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -146,7 +151,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -165,8 +170,13 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_byte_count {
+            return Err(Error::InvalidSaltLength(salt_len));
+        }
         let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        let salt_bytes = reader
+            .get_slice_or_error(offset..offset + salt_byte_len)?
+            .to_vec();
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len as usize)
@@ -190,7 +200,7 @@ impl MsHeader {
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..reader.get_size().min(offset + 128))?,
             &chacha20_key,
             &empty_nonce,
         );
-- 
2.43.0


From 9840eb58c951055fcae0e61603ee0b8f5a6b009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 33/58] fix: decrypt images of ms files with non-ascii names

---
 src/ms/ms_image.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..5087973 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -128,14 +128,10 @@ impl MsImage {
          let key_hash_digits: Vec<u8> = key_hash.to_string().chars().map(|c| c as u8 - 48).collect();
 
         // key
+        let name_chars: Vec<u8> = self.meta.entry_name.chars().map(|c| c as u8).collect();
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = name_chars[i % name_chars.len()];
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
-- 
2.43.0


From b1c114502ef06d2e7ff10cf5d464270e9b80f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 34/58] fix: look up nodes of ms images by path without parsing

---
 src/util/node_util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index e9777a8..e3c8243 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -162,6 +162,9 @@ pub fn get_image_node_from_path<'a>(
 pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
     let (image_node, rest_path) = get_image_node_from_path(root, path)?;
     let image_read = image_node.read().unwrap();
+    if let WzObjectType::MsImage(image) = &image_read.object_type {
+        return image.to_wz_image().at_path(rest_path).ok();
+    }
     let image = image_read.try_as_image()?;
 
     if image.is_parsed {
-- 
2.43.0


From ffe4341b31fae4c38977bc7d4e2aa2e41d1b50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 35/58] fix: export NaN and infinite numbers to simple json
 instead of panicking

---
 src/property/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..9e147cd 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -92,8 +92,11 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // json doesn't have NaN and infinity, same as serde_json does, it will be null
+            WzValue::Float(value) => {
+                Number::from_f64(value.into()).map_or(Value::Null, Value::Number)
+            }
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 7e4d23ad9dee58328c6b2de3192eac608fac3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 36/58] fix: load null values from json as null instead of
 property

---
 src/property/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 9e147cd..32f76a4 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
-- 
2.43.0


From eb7c4ece80ec9f2ee1be11f9814b41bc1db7254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 37/58] fix: load numbers that json has no form for

---
 src/property/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 32f76a4..c9ce29d 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -68,8 +68,8 @@ pub enum WzValue {
     #[cfg_attr(feature = "serde", serde(alias = "number"))]
     Int(i32),
     Long(i64),
-    Float(f32),
-    Double(f64),
+    Float(#[cfg_attr(feature = "serde", serde(deserialize_with = "de_float"))] f32),
+    Double(#[cfg_attr(feature = "serde", serde(deserialize_with = "de_float"))] f64),
     Vector(Vector2D),
     UOL(WzString),
     String(WzString),
@@ -80,6 +80,16 @@ pub enum WzValue {
 }
 
 
+/// The numbers that json doesn't have are serialized to null, take them back as NaN.
+#[cfg(feature = "serde")]
+fn de_float<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: Deserialize<'de> + From<f32>,
+{
+    Ok(Option::<T>::deserialize(deserializer)?.unwrap_or_else(|| T::from(f32::NAN)))
+}
+
 #[cfg(feature = "json")]
 impl From<WzValue> for Value {
     fn from(value: WzValue) -> Self {
-- 
2.43.0


From 20de2c31198737a6edbb3e96f394addfc9fd84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 38/58] fix: don't allocate for forged entry counts of
 properties

---
 src/util/parse_property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 9f94ea0..5a2e244 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -8,6 +8,9 @@ use crate::{
 use std::sync::Arc;
 use thiserror::Error;
 
+/// how many entries to allocate for before they are actually read
+const MAX_PREALLOCATED_ENTRIES: i32 = 1024;
+
 #[derive(Debug, Error)]
 pub enum WzPropertyParseError {
     #[error("Node not found")]
@@ -34,7 +37,9 @@ pub fn parse_property_list(
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
     let entry_count = reader.read_wz_int()?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    // don't trust the count, it can be anything in a broken file
+    let mut childs: WzNodeArcVec =
+        Vec::with_capacity(entry_count.clamp(0, MAX_PREALLOCATED_ENTRIES) as usize);
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -274,7 +279,9 @@ pub fn parse_more(
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
+                node_write
+                    .children
+                    .reserve(entry_count.clamp(0, MAX_PREALLOCATED_ENTRIES) as usize);
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
-- 
2.43.0


From e6e690f805bf2030777b401b6dd6826ef2fa0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 39/58] fix: report blocks reaching over their end instead of
 reading them repeatedly

---
 src/util/parse_property.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 5a2e244..0ad3998 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -145,6 +145,11 @@ pub fn parse_property_node(
                 return parse_result;
             };
 
+            // nothing in the block reaches over its end, going back would read the same bytes again and again
+            if reader.pos.get() > next_pos {
+                return Err(reader::Error::OutOfBounds(next_pos, reader.pos.get()).into());
+            }
+
             reader.seek(next_pos);
 
             return Ok(node);
-- 
2.43.0


From 97d45568d02c887a441dd8c1ebd4a43d43652177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 40/58] fix: report payloads reaching out of the file instead
 of panicking

---
 src/property/lua.rs        | 17 ++++++++++-------
 src/property/raw_data.rs   |  5 +++--
 src/property/sound.rs      | 28 ++++++++++++++++++++--------
 src/property/video.rs      |  5 +++--
 src/util/parse_property.rs | 10 +++++++---
 5 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index f9a4c7b..09df848 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -1,6 +1,6 @@
 use crate::util::maple_crypto_constants::{WZ_GMSIV, WZ_MSEAIV};
 use crate::GLOBAL_STRING_DECRYPTOR;
-use crate::{SharedWzStringDecryptor, WzReader};
+use crate::{reader, SharedWzStringDecryptor, WzReader};
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -9,6 +9,9 @@ pub enum WzLuaParseError {
     #[error("Lua decode fail")]
     StringDecodeFail(#[from] std::string::FromUtf8Error),
 
+    #[error("Binary reading error")]
+    ReaderError(#[from] reader::Error),
+
     #[error("Unknown Lua Iv")]
     UnknownLuaIv,
 
@@ -37,10 +40,10 @@ impl WzLua {
     pub fn extract_lua(&self) -> Result<String, WzLuaParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..self.length + self.offset);
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.length))?;
 
         let keys = self
-            .get_mtb_keys_from_guess_lua_iv()
+            .get_mtb_keys_from_guess_lua_iv(data)
             .ok_or(WzLuaParseError::UnknownLuaIv)?;
 
         let len = data.len();
@@ -57,9 +60,9 @@ impl WzLua {
     }
 
     /// try to guess the iv from encrypted data
-    fn get_mtb_keys_from_guess_lua_iv(&self) -> Option<SharedWzStringDecryptor> {
-        let len = std::cmp::min(64, self.length);
-        let test_data = self.reader.get_slice(self.offset..self.offset + len);
+    fn get_mtb_keys_from_guess_lua_iv(&self, data: &[u8]) -> Option<SharedWzStringDecryptor> {
+        let len = std::cmp::min(64, data.len());
+        let test_data = &data[..len];
 
         let ivs = [WZ_MSEAIV, WZ_GMSIV, [0, 0, 0, 0]];
 
@@ -78,7 +81,7 @@ impl WzLua {
             // the last character may be cut in half by the end of the test data
             let is_text = match std::str::from_utf8(&decoded) {
                 Ok(_) => true,
-                Err(e) => len < self.length && e.error_len().is_none(),
+                Err(e) => len < data.len() && e.error_len().is_none(),
             };
 
             if is_text {
diff --git a/src/property/raw_data.rs b/src/property/raw_data.rs
index ce3edb1..38a41aa 100644
--- a/src/property/raw_data.rs
+++ b/src/property/raw_data.rs
@@ -19,11 +19,12 @@ impl WzRawData {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length
+        self.offset..self.offset.saturating_add(self.length)
     }
+    /// The data, empty if the file ends before the data does.
     #[inline]
     pub fn get_buffer(&self) -> &[u8] {
         let range = self.get_buffer_range();
-        self.reader.get_slice(range)
+        self.reader.get_slice_or_error(range).unwrap_or_default()
     }
 }
diff --git a/src/property/sound.rs b/src/property/sound.rs
index a488e18..ca713e8 100644
--- a/src/property/sound.rs
+++ b/src/property/sound.rs
@@ -104,22 +104,27 @@ impl WzSound {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length as usize
+        self.offset..self.offset.saturating_add(self.length as usize)
     }
     #[inline]
     fn get_header_range(&self) -> Range<usize> {
-        self.header_offset..self.header_offset + self.header_size
+        self.header_offset..self.header_offset.saturating_add(self.header_size)
     }
     pub fn get_wav_header(&self) -> Vec<u8> {
-        let header = self.reader.get_slice(self.get_header_range());
-        let chunk_size = (self.length + 36).to_le_bytes();
-        let u8_16_from_header = &header[0x34..0x34 + 16];
+        let header = self
+            .reader
+            .get_slice_or_error(self.get_header_range())
+            .unwrap_or_default();
+        let chunk_size = self.length.wrapping_add(36).to_le_bytes();
         let chunk2_size = self.length.to_le_bytes();
 
         let mut wav_header = WAV_HEADER.to_vec();
 
         wav_header[4..8].copy_from_slice(&chunk_size);
-        wav_header[20..36].copy_from_slice(u8_16_from_header);
+        // only the header of a wav is long enough to hold the wave format
+        if let Some(u8_16_from_header) = header.get(0x34..0x34 + 16) {
+            wav_header[20..36].copy_from_slice(u8_16_from_header);
+        }
         wav_header[40..44].copy_from_slice(&chunk2_size);
 
         wav_header
@@ -129,7 +134,10 @@ impl WzSound {
     where
         W: Write + Seek,
     {
-        let buffer = self.reader.get_slice(self.get_buffer_range());
+        let buffer = self
+            .reader
+            .get_slice_or_error(self.get_buffer_range())
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::UnexpectedEof, e))?;
         match self.sound_type {
             WzSoundType::Wav => {
                 let wav_header = self.get_wav_header();
@@ -143,9 +151,13 @@ impl WzSound {
 
         Ok(())
     }
+    /// The sound including the header if it is a wav file, without data if the file ends before the sound does.
     #[inline]
     pub fn get_buffer(&self) -> Vec<u8> {
-        let buffer = self.reader.get_slice(self.get_buffer_range());
+        let buffer = self
+            .reader
+            .get_slice_or_error(self.get_buffer_range())
+            .unwrap_or_default();
         match self.sound_type {
             WzSoundType::Wav => {
                 let mut wav_buffer = Vec::with_capacity(44 + buffer.len());
diff --git a/src/property/video.rs b/src/property/video.rs
index aac3f2c..9326da1 100644
--- a/src/property/video.rs
+++ b/src/property/video.rs
@@ -19,11 +19,12 @@ impl WzVideo {
     }
     #[inline]
     fn get_buffer_range(&self) -> Range<usize> {
-        self.offset..self.offset + self.length
+        self.offset..self.offset.saturating_add(self.length)
     }
+    /// The data, empty if the file ends before the data does.
     #[inline]
     pub fn get_buffer(&self) -> &[u8] {
         let range = self.get_buffer_range();
-        self.reader.get_slice(range)
+        self.reader.get_slice_or_error(range).unwrap_or_default()
     }
 }
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 0ad3998..010b187 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -319,14 +319,18 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
-
             let header_offset: usize = reader.pos.get();
 
+            // the header is everything between here and the sound
+            let sound_offset = end_of_block
+                .checked_sub(sound_size as usize)
+                .filter(|offset| *offset >= header_offset)
+                .ok_or(reader::Error::OutOfBounds(end_of_block, header_offset))?;
+
             let header_size = sound_offset - header_offset;
 
             let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
+                reader.get_slice_or_error(header_offset..sound_offset)?,
                 sound_size,
                 sound_duration,
             );
-- 
2.43.0


From 17d5f41a06a1cfc136889fc457f2ec3c36d82c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 41/58] fix: report properties nested too deep instead of
 overflowing the stack

---
 src/reader.rs              |  3 +++
 src/util/parse_property.rs | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5b1ab9f..e5cfd1a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -69,6 +69,8 @@ pub struct WzSliceReader<'a> {
     /// current reading position
     pub pos: Cell<usize>,
     _save_pos: Cell<usize>,
+    /// how many blocks the current position is in
+    pub(crate) depth: Cell<usize>,
     pub header: WzHeader,
     pub keys: SharedWzStringDecryptor,
     pub pkg2_keys: SharedWzStringDecryptor,
@@ -304,6 +306,7 @@ impl<'a> WzSliceReader<'a> {
             buf,
             pos: Cell::new(0),
             _save_pos: Cell::new(0),
+            depth: Cell::new(0),
             header: Default::default(),
             keys,
             pkg2_keys,
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 010b187..5ac9383 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -11,6 +11,9 @@ use thiserror::Error;
 /// how many entries to allocate for before they are actually read
 const MAX_PREALLOCATED_ENTRIES: i32 = 1024;
 
+/// how deep the properties can be nested, every level takes some of the stack
+const MAX_DEPTH: usize = 100;
+
 #[derive(Debug, Error)]
 pub enum WzPropertyParseError {
     #[error("Node not found")]
@@ -25,6 +28,9 @@ pub enum WzPropertyParseError {
     #[error("Unknown extended property type: {0}, name: {1}, at position: {2}")]
     UnknownExtendedPropertyType(String, WzNodeName, usize),
 
+    #[error("Properties are nested too deep, at position: {0}")]
+    NestedTooDeep(usize),
+
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
@@ -195,6 +201,36 @@ pub fn parse_more(
     origin_offset: usize,
     property_name: WzNodeName,
     extend_property_type: &str,
+) -> Result<(WzNodeName, WzNodeArc, Option<Vec<WzNodeArc>>), WzPropertyParseError> {
+    let depth = reader.depth.get();
+
+    if depth >= MAX_DEPTH {
+        return Err(WzPropertyParseError::NestedTooDeep(reader.pos.get()));
+    }
+
+    reader.depth.set(depth + 1);
+    let result = parse_extended_content(
+        parent,
+        org_reader,
+        reader,
+        end_of_block,
+        origin_offset,
+        property_name,
+        extend_property_type,
+    );
+    reader.depth.set(depth);
+
+    result
+}
+
+fn parse_extended_content(
+    parent: Option<&WzNodeArc>,
+    org_reader: &Arc<WzReader>,
+    reader: &WzSliceReader,
+    end_of_block: usize,
+    origin_offset: usize,
+    property_name: WzNodeName,
+    extend_property_type: &str,
 ) -> Result<(WzNodeName, WzNodeArc, Option<Vec<WzNodeArc>>), WzPropertyParseError> {
     match extend_property_type {
         "Property" => {
-- 
2.43.0


From a66f4ee7c7351aae5e3eacda5a1c8697b2090245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 42/58] fix: report name offsets in front of the file and empty
 images instead of panicking

---
 src/directory.rs                 | 4 ++--
 src/reader.rs                    | 2 +-
 src/util/string_decryptor/mod.rs | 4 ++--
 src/util/version/mod.rs          | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index d1016f1..357704f 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -345,10 +345,10 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.checked_offset(reader.header.fstart, str_offset)?;
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
-                entry.name = reader.read_wz_string_meta_at(offset + 1)?;
+                entry.name = reader.read_wz_string_meta_at(offset.saturating_add(1))?;
             }
             WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
                 entry.name = reader.read_wz_string_meta()?;
diff --git a/src/reader.rs b/src/reader.rs
index e5cfd1a..f2468ac 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -462,7 +462,7 @@ impl<'a> WzSliceReader<'a> {
             .ok_or(Error::OutOfBounds(len as usize, self.get_size()))
     }
     #[inline]
-    fn checked_offset(&self, base: usize, append_offset: i32) -> Result<usize> {
+    pub(crate) fn checked_offset(&self, base: usize, append_offset: i32) -> Result<usize> {
         base.checked_add_signed(append_offset as isize)
             .ok_or(Error::OutOfBounds(usize::MAX, self.get_size()))
     }
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index b748912..cd825f9 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -87,8 +87,8 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
-            reader.read_wz_string_meta_at(offset + 1)?
+            let offset = reader.checked_offset(reader.header.fstart, str_offset)?;
+            reader.read_wz_string_meta_at(offset.saturating_add(1))?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
         _ => return Err(reader::Error::DecryptError(reader.pos.get())),
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 56122db..9cd70d4 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
@@ -146,9 +146,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.fstart + str_offset as usize;
+            let offset = reader.checked_offset(reader.header.fstart, str_offset)?;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta_at(offset + 1)?;
+            let meta = reader.read_wz_string_meta_at(offset.saturating_add(1))?;
             reader.try_resolve_wz_string_meta(
                 &meta.string_type,
                 meta.offset,
-- 
2.43.0


From a0a68e6f23386c97adc9e9780c64d4f9baa83e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 43/58] fix: report cut off text images instead of panicking

---
 src/wz_image.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index 207cc36..15d6f8c 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -196,7 +196,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset.saturating_add(9))?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -204,8 +204,11 @@ impl WzImage {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
                 let name: WzNodeName = String::from("text.txt").into();
-                let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                let text_size = self
+                    .block_size
+                    .checked_sub(9)
+                    .ok_or(Error::ParseError(reader.pos.get()))?;
+                let wz_raw_data = WzRawData::new(&self.reader, self.offset + 9, text_size);
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From bb368af52c938249155e254e409aeba57a2cfa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 44/58] fix: report unreadable entries of a directory instead
 of panicking

---
 src/directory.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 357704f..58b0a76 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -10,6 +10,9 @@ use std::sync::Arc;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+/// how many entries to allocate for before they are actually read
+const MAX_PREALLOCATED_ENTRIES: usize = 1024;
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error("Lua parse error")]
@@ -125,9 +128,14 @@ impl WzDirectory {
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<_, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -156,7 +164,9 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count as usize);
+        // don't trust the count, it can be anything in a broken file
+        let mut entries: Vec<WzDirectoryEntry> =
+            Vec::with_capacity((entry_count as usize).min(MAX_PREALLOCATED_ENTRIES));
 
         for _ in 0..entry_count {
             let entry = WzDirectoryEntry::read_pkg1_entry(reader)?;
@@ -236,7 +246,8 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count);
+        let mut wz_dir_entries: Vec<WzDirectoryEntry> =
+            Vec::with_capacity(entry_count.min(MAX_PREALLOCATED_ENTRIES));
 
         for i in 0..entry_count {
             let entry =
@@ -481,15 +492,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
-- 
2.43.0


From 350840a2b83094b4c8fc30fff2be1684630a3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 45/58] fix: report directories leading back to each other
 instead of following them forever

---
 src/directory.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 58b0a76..d8645df 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -13,6 +13,12 @@ use serde::{Deserialize, Serialize};
 /// how many entries to allocate for before they are actually read
 const MAX_PREALLOCATED_ENTRIES: usize = 1024;
 
+/// how deep the directories can be nested, every level takes some of the stack
+const MAX_DEPTH: usize = 100;
+
+/// an entry takes at least a byte for each of type, name, size and checksum, and 4 for the offset
+const MIN_ENTRY_SIZE: usize = 8;
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error("Lua parse error")]
@@ -27,6 +33,8 @@ pub enum Error {
     InvalidEntryCount,
     #[error("Unknown pkg version, can't resolve children")]
     UnknownPkgVersion,
+    #[error("Directories are nested too deep, at position: {0}")]
+    NestedTooDeep(usize),
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
@@ -114,12 +122,32 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        let mut entries_left = self.reader.get_size() / MIN_ENTRY_SIZE;
+
+        self.resolve_children_at(parent, 0, &mut entries_left)
+    }
+
+    fn resolve_children_at(
+        &mut self,
+        parent: &WzNodeArc,
+        depth: usize,
+        entries_left: &mut usize,
+    ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
         }
 
+        if depth >= MAX_DEPTH {
+            return Err(Error::NestedTooDeep(self.offset));
+        }
+
         self.prepare_entries()?;
 
+        // directories leading back to each other never end
+        *entries_left = entries_left
+            .checked_sub(self.entries.len())
+            .ok_or(Error::InvalidEntryCount)?;
+
         if self.calculate_offset_and_verify().is_err() {
             return Err(Error::InvalidWzVersion);
         }
@@ -143,7 +171,7 @@ impl WzDirectory {
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let children = dir.resolve_children_at(node, depth + 1, entries_left)?;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
-- 
2.43.0


From 17adb05b58cc64b9617d5d56747165ddaa824415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 46/58] fix: ignore links below properties replaced by one of
 the same name instead of panicking

---
 src/util/node_util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index e3c8243..ec1494c 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -83,7 +83,10 @@ fn makes_cycle(parent: &WzNodeArc, target: &WzNodeArc) -> bool {
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
+    /* the parent is gone when another node with the same name took its place */
+    let Some(node_parent) = node.read().unwrap().parent.upgrade() else {
+        return;
+    };
 
     if let Some(ref mut uol_target_path) = node
         .read()
-- 
2.43.0


From 35c7016401a95cb85e1ee65f14433be762749045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 47/58] fix: report canvases smaller than their blocks instead
 of allocating for them

---
 src/property/png.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 1028823..52b2c5d 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -248,7 +248,11 @@ impl WzPng {
             WzPngFormat::A8 => width.saturating_mul(height),
             WzPngFormat::RGBA32Float => width.saturating_mul(height).saturating_mul(16),
             /* 2 bytes for every 16 * 16 pixels */
-            WzPngFormat::RGB565_517 => (width / 16).saturating_mul(height / 16).saturating_mul(2),
+            /* a side shorter than that has no data at all, and nothing would limit the other side */
+            WzPngFormat::RGB565_517 => match (width / 16).saturating_mul(height / 16) {
+                0 if width > 0 && height > 0 => return Err(WzPngParseError::NotEnoughData(2, 0)),
+                blocks => blocks.saturating_mul(2),
+            },
             _ => return Err(WzPngParseError::UnknownFormat(self.format())),
         };
         Ok(size)
-- 
2.43.0


From 4e3f20f8aa97d99d5e4d7e31cd6ed7cb31bf96ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 48/58] fix: report broken entry tables of ms files instead of
 panicking

---
 src/ms/chacha20_reader.rs | 48 +++++++++++++++++++++++++--------------
 src/ms/file.rs            | 23 ++++++++++++++-----
 src/ms/snow2_reader.rs    |  5 ++++
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..1393ac6 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -20,6 +20,7 @@ pub(crate) struct ChaCha20Reader<'a> {
     pub offset: usize,
     decryptor: Ietf,
     buffer_offset: usize,
+    buffer_len: usize,
     buffer: [u8; READER_CHUNK_SIZE],
 }
 
@@ -32,22 +33,21 @@ impl<'a> ChaCha20Reader<'a> {
         Self {
             data,
             offset: 0,
-            buffer_offset: READER_CHUNK_SIZE,
+            buffer_offset: 0,
+            buffer_len: 0,
             buffer: [0; READER_CHUNK_SIZE],
             decryptor: Ietf::new_var(key, nonce).unwrap(),
         }
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.fill(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.fill(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +61,11 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        if len > self.available() {
+            return Err(Error::OutOfBounds(len, self.available()));
+        }
+        let mut buffer = vec![0; len];
+        self.fill(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,24 +73,33 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.fill(&mut dest_buffer[..len])
+    }
+    /// how many bytes can still be read
+    fn available(&self) -> usize {
+        self.data.len().saturating_sub(self.offset) + self.buffer_len - self.buffer_offset
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// fill `data` with the next decrypted bytes
+    fn fill(&mut self, data: &mut [u8]) -> Result<(), Error> {
+        if data.len() > self.available() {
+            return Err(Error::OutOfBounds(data.len(), self.available()));
+        }
+
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
-            if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+            if self.buffer_offset >= self.buffer_len {
+                // the last chunk of the file can be shorter
+                let chunk_end = self.data.len().min(self.offset + READER_CHUNK_SIZE);
+                let chunk = &self.data[self.offset..chunk_end];
+                self.buffer_len = chunk.len();
+                self.buffer[..self.buffer_len].copy_from_slice(chunk);
                 self.decryptor.apply_keystream(&mut self.buffer);
-                self.offset += READER_CHUNK_SIZE;
+                self.offset += self.buffer_len;
                 self.buffer_offset = 0;
             }
 
-            let read_count = remain.min(READER_CHUNK_SIZE - self.buffer_offset);
+            let read_count = remain.min(self.buffer_len - self.buffer_offset);
 
             data[start..start + read_count]
                 .copy_from_slice(&self.buffer[self.buffer_offset..self.buffer_offset + read_count]);
@@ -100,5 +112,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/file.rs b/src/ms/file.rs
index b850c32..b8e6b78 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -77,6 +77,11 @@ impl MsFile {
         }
     }
 
+    /// don't trust the count, it can be anything in a broken file
+    fn preallocated_entries(&self) -> usize {
+        self.header.entry_count.clamp(0, 1024) as usize
+    }
+
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
         let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
@@ -93,11 +98,11 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::with_capacity(self.preallocated_entries());
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = snow_reader.read_utf16_string(name_byte_len(entry_name_len)?)?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -135,7 +140,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -173,11 +178,11 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::with_capacity(self.preallocated_entries());
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = chacha20_reader.read_utf16_string(name_byte_len(entry_name_len)?)?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -218,7 +223,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.saturating_add(image.offset.saturating_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -233,3 +238,9 @@ impl MsFile {
             .collect())
     }
 }
+
+fn name_byte_len(entry_name_len: i32) -> Result<usize, Error> {
+    usize::try_from(entry_name_len)
+        .map(|len| len * 2)
+        .map_err(|_| Error::InvalidMsFile)
+}
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..c407ebb 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,11 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        let available = self.data.len().saturating_sub(self.offset) + self.buffer_len;
+        if len > available {
+            return Err(Error::OutOfBounds(len, available));
+        }
+
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
-- 
2.43.0


From 2f4e4a4f86f004815f149de00ef420b05d52de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 49/58] fix: report cut off images of ms files instead of
 panicking

---
 src/ms/ms_image.rs | 68 ++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 5087973..5a7da5d 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -55,7 +55,30 @@ impl MsImage {
         match self.meta.version {
             1 => self.to_wz_image_v1(),
             2 => self.to_wz_image_v2(),
-            _ => panic!("Invalid MsImage version: {}", self.meta.version),
+            _ => self.make_wz_image(&[]),
+        }
+    }
+
+    /// The encrypted data, empty if the file ends before the data does.
+    fn get_encrypted_data(&self) -> &[u8] {
+        self.reader
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))
+            .unwrap_or_default()
+    }
+
+    /// create a new allocate reader, but only grab the size of the image, not size_aligned
+    fn make_wz_image(&self, image_buffer: &[u8]) -> WzImage {
+        let image_buffer = usize::try_from(self.meta.size)
+            .ok()
+            .and_then(|size| image_buffer.get(..size))
+            .unwrap_or_default();
+
+        WzImage {
+            reader: Arc::new(WzReader::from_buff(image_buffer)),
+            name: self.meta.entry_name.clone().into(),
+            offset: 0,
+            block_size: image_buffer.len(),
+            is_parsed: false,
         }
     }
 
@@ -73,6 +96,11 @@ impl MsImage {
 
         let bytes = self.meta.entry_name.as_bytes();
 
+        if bytes.is_empty() {
+            // the key is made of the name
+            return self.make_wz_image(&[]);
+        }
+
         for i in 0..16 {
             let char = bytes[i % bytes.len()];
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
@@ -86,10 +114,7 @@ impl MsImage {
                 .wrapping_add(char.wrapping_mul(digit.wrapping_add(ekey).wrapping_add(digit2)));
         }
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.get_encrypted_data().to_owned();
 
         // decrypt initial 1024 bytes twice
         {
@@ -102,16 +127,7 @@ impl MsImage {
 
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        self.make_wz_image(&image_buffer)
     }
 
     fn to_wz_image_v2(&self) -> WzImage {
@@ -130,6 +146,12 @@ impl MsImage {
         // key
         let name_chars: Vec<u8> = self.meta.entry_name.chars().map(|c| c as u8).collect();
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
+
+        if name_chars.is_empty() {
+            // the key is made of the name
+            return self.make_wz_image(&[]);
+        }
+
         for i in 0..MS_CHACHA20_KEY_SIZE {
             let char = name_chars[i % name_chars.len()];
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
@@ -164,10 +186,7 @@ impl MsImage {
         nonce[4..].copy_from_slice(&key_hash_data[0..8]);
         let counter = u32::from_le_bytes(key_hash_data[8..12].try_into().unwrap());
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.get_encrypted_data().to_owned();
 
         // only decrypt initial 1024 bytes
         {
@@ -180,15 +199,6 @@ impl MsImage {
             chacha20_cipher.apply_keystream(&mut image_buffer[..min_len]);
         }
 
-        // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
-
-        WzImage {
-            reader: Arc::new(image_reader),
-            name: self.meta.entry_name.clone().into(),
-            offset: 0,
-            block_size: self.meta.size as usize,
-            is_parsed: false,
-        }
+        self.make_wz_image(&image_buffer)
     }
 }
-- 
2.43.0


From ed03419d95e5438691ca0fd7940a521aac5ed35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 50/58] fix: get the header of a cut off file without panicking

---
 src/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index ec6e367..afef9b4 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -65,10 +65,13 @@ impl WzHeader {
         self.flags.contains(WzHeaderFlag::PKG2_RANDOM_HEADER64)
     }
 
+    /// The bytes in front of the content, all of them if the file ends before its header does.
     #[inline]
     pub fn get_header_slice(buf: &[u8]) -> &[u8] {
-        let fstart = Self::get_wz_fstart(buf).unwrap() as usize;
-        &buf[0..fstart]
+        Self::get_wz_fstart(buf)
+            .ok()
+            .and_then(|fstart| buf.get(0..fstart as usize))
+            .unwrap_or(buf)
     }
     #[inline]
     pub fn get_ident(buf: &[u8]) -> Result<PKGVersion> {
-- 
2.43.0


From 86724931bba2a1ef0253c2241727188e4758e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 51/58] fix: follow inlinks and outlinks without holding a node
 locked while locking another

---
 src/util/node_util.rs | 51 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index ec1494c..7845f8f 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -8,24 +8,55 @@ pub fn parse_node(node: &WzNodeArc) -> Result<(), Error> {
     node.write().unwrap().parse(node)
 }
 
+/// Find the nearest ancestor, never more than a single node is locked on the way up, someone
+/// coming from the other way can be waiting for the one below.
+fn find_ancestor(node: &WzNodeArc, matched: fn(&WzNode) -> bool) -> Option<WzNodeArc> {
+    let mut current = node.read().unwrap().parent.upgrade()?;
+    loop {
+        let parent = {
+            let read = current.read().unwrap();
+            if matched(&read) {
+                None
+            } else {
+                Some(read.parent.upgrade()?)
+            }
+        };
+        match parent {
+            Some(parent) => current = parent,
+            None => return Some(current),
+        }
+    }
+}
+
 #[inline]
 /// Resolve a `_inlink` path, a `_inlink` path always start from a `WzImage`.
 pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
-    let parent_wz_image = node.read().unwrap().get_parent_wz_image()?;
-    let parent_wz_image = parent_wz_image.read().unwrap();
-    parent_wz_image.at_path(path)
+    let parent_wz_image =
+        find_ancestor(node, |node| matches!(node.object_type, WzObjectType::Image(_)))?;
+    path.split('/').try_fold(parent_wz_image, |node, name| {
+        node.read().unwrap().at(name)
+    })
 }
 
 #[inline]
 /// Resolve a `_outlink` path, a `_outlink` path always start from Wz's data root(a.k.a `Base.wz`).
 pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Option<WzNodeArc> {
-    let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
-
-    if force_parse {
-        parent_wz_base.read().unwrap().at_path_parsed(path).ok()
-    } else {
-        parent_wz_base.read().unwrap().at_path(path)
-    }
+    let parent_wz_base = find_ancestor(node, |node| {
+        matches!(node.object_type, WzObjectType::File(_)) && node.name.as_str() == "Base"
+    })?;
+
+    let mut pathes = path.split('/');
+    let first = parent_wz_base.read().unwrap().at(pathes.next().unwrap())?;
+
+    pathes.try_fold(first, |node, name| {
+        if force_parse {
+            let mut write = node.write().unwrap();
+            write.parse(&node).ok()?;
+            write.at(name)
+        } else {
+            node.read().unwrap().at(name)
+        }
+    })
 }
 
 #[inline]
-- 
2.43.0


From a3452ff67e746fbb2e6cc69f4f0e0fbaba500bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 52/58] fix: skip directories whose wz file does not exist
 instead of panicking

---
 src/util/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..78973fc 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -10,7 +10,7 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
+    if inner_wz_path.is_file() {
         return Some(inner_wz_path.to_str().unwrap().to_string());
     }
 
-- 
2.43.0


From e5e5fbe0e0606d7e87282147b06f1ce991c3c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 53/58] fix: ignore files that are no wz files when resolving a
 directory instead of panicking

---
 src/util/resolver.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 78973fc..0a46c9a 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -6,12 +6,12 @@ use std::path::Path;
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     let dir_name = dir.file_name();
-    let mut inner_wz_name = dir_name.to_str().unwrap().to_string();
+    let mut inner_wz_name = dir_name.to_str()?.to_string();
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
     if inner_wz_path.is_file() {
-        return Some(inner_wz_path.to_str().unwrap().to_string());
+        return inner_wz_path.to_str().map(str::to_string);
     }
 
     None
@@ -40,8 +40,12 @@ pub fn resolve_root_wz_file_dir_full(
             let entry = entry?;
             let file_type = entry.file_type()?;
             let name = entry.file_name();
+            // nothing in the wz files can have a name like this
+            let Some(name) = name.to_str() else {
+                continue;
+            };
 
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
+            if file_type.is_dir() && root_node_write.at(name).is_some() {
                 if let Some(file_path) = get_root_wz_file_path(&entry) {
                     let dir_node = resolve_root_wz_file_dir_full(
                         &file_path,
@@ -54,11 +58,16 @@ pub fn resolve_root_wz_file_dir_full(
                     /* replace the original one */
                     root_node_write
                         .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
+                        .insert(name.into(), dir_node);
                 }
             } else if file_type.is_file() {
                 //  check is XXX_nnn.wz
                 let file_path = entry.path();
+
+                if file_path.extension().unwrap_or_default() != "wz" {
+                    continue;
+                }
+
                 let file_name = file_path.file_stem().unwrap().to_str().unwrap();
 
                 let splited = file_name.split('_').collect::<Vec<&str>>();
@@ -72,7 +81,7 @@ pub fn resolve_root_wz_file_dir_full(
                 }
 
                 let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
+                    &file_path,
                     version,
                     patch_version,
                     None,
@@ -143,18 +152,20 @@ pub fn resolve_base(
         for item in wz_root_path.read_dir()? {
             let dir = item?;
             let path = dir.path();
-            let file_name = path.file_stem().unwrap();
+            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+                continue;
+            };
 
             let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
 
             // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
+            let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
                 let wz_path = if dir.file_type()?.is_dir() {
                     get_root_wz_file_path(&dir)
                 } else {
-                    Some(path.to_str().unwrap().to_string())
+                    path.to_str().map(str::to_string)
                 };
 
                 if let Some(file_path) = wz_path {
@@ -170,7 +181,7 @@ pub fn resolve_base(
                     /* replace the original one */
                     base_write
                         .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
+                        .insert(file_name.into(), dir_node);
                 }
             }
         }
-- 
2.43.0


From fee26833655229c600dad2100f601f88d4404251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 54/58] fix: merge what the parts of a resolved directory hold
 under the same name

---
 src/util/resolver.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 0a46c9a..f4f8964 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -2,6 +2,7 @@ use crate::{util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNo
 use std::fs::DirEntry;
 use std::io;
 use std::path::Path;
+use std::sync::Arc;
 
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
@@ -36,8 +37,11 @@ pub fn resolve_root_wz_file_dir_full(
 
         root_node_write.parse(&root_node).unwrap();
 
-        for entry in wz_dir.read_dir()? {
-            let entry = entry?;
+        // the parts before the directories they list, whatever the order of the listing
+        let mut entries = wz_dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
+        entries.sort_by_key(|entry| (entry.path().is_dir(), entry.file_name()));
+
+        for entry in entries {
             let file_type = entry.file_type()?;
             let name = entry.file_name();
             // nothing in the wz files can have a name like this
@@ -56,9 +60,12 @@ pub fn resolve_root_wz_file_dir_full(
                     )?;
 
                     /* replace the original one */
-                    root_node_write
+                    let origin = root_node_write
                         .children
-                        .insert(name.into(), dir_node);
+                        .insert(name.into(), Arc::clone(&dir_node));
+                    if let Some(origin) = origin {
+                        origin.write().unwrap().transfer_childs(&dir_node);
+                    }
                 }
             } else if file_type.is_file() {
                 //  check is XXX_nnn.wz
@@ -99,7 +106,11 @@ pub fn resolve_root_wz_file_dir_full(
                     #[cfg(feature = "indexmap")]
                     let iter = node_write.children.drain(..);
                     for (name, child) in iter {
-                        root_node_write.children.insert(name, child);
+                        if let Some(same) = root_node_write.children.get(&name) {
+                            child.write().unwrap().transfer_childs(same);
+                        } else {
+                            root_node_write.children.insert(name, child);
+                        }
                     }
                 }
             }
@@ -149,8 +160,10 @@ pub fn resolve_base(
             first_parent
         };
 
-        for item in wz_root_path.read_dir()? {
-            let dir = item?;
+        let mut items = wz_root_path.read_dir()?.collect::<Result<Vec<_>, _>>()?;
+        items.sort_by_key(|item| item.file_name());
+
+        for dir in items {
             let path = dir.path();
             let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
                 continue;
@@ -179,9 +192,12 @@ pub fn resolve_base(
                     )?;
 
                     /* replace the original one */
-                    base_write
+                    let origin = base_write
                         .children
-                        .insert(file_name.into(), dir_node);
+                        .insert(file_name.into(), Arc::clone(&dir_node));
+                    if let Some(origin) = origin {
+                        origin.write().unwrap().transfer_childs(&dir_node);
+                    }
                 }
             }
         }
-- 
2.43.0


From 357e87d7a574562f697038638481be15b6ddb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 55/58] fix: report wz files that cannot be read when resolving
 instead of panicking

---
 src/util/resolver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index f4f8964..d5f719d 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -28,14 +28,14 @@ pub fn resolve_root_wz_file_dir_full(
 ) -> Result<WzNodeArc, io::Error> {
     let root_node: WzNodeArc =
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
+            .map_err(io::Error::other)?
             .into();
     let wz_dir = dir.as_ref().parent().unwrap();
 
     {
         let mut root_node_write = root_node.write().unwrap();
 
-        root_node_write.parse(&root_node).unwrap();
+        root_node_write.parse(&root_node).map_err(io::Error::other)?;
 
         // the parts before the directories they list, whatever the order of the listing
         let mut entries = wz_dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
@@ -94,7 +94,7 @@ pub fn resolve_root_wz_file_dir_full(
                     None,
                     default_keys,
                 )
-                .unwrap()
+                .map_err(io::Error::other)?
                 .into_lock();
 
                 let mut node_write = node.write().unwrap();
-- 
2.43.0


From 74a24d3eb36199d47ad5e2fd4cc71dfb92471880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 56/58] fix: resolve wz files of relative paths without a
 directory

---
 src/util/resolver.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index d5f719d..5fb0921 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -18,6 +18,14 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     None
 }
 
+/// The directory of the path, a path without one is in the current directory.
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if parent != Path::new("") => parent,
+        _ => Path::new("."),
+    }
+}
+
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
 pub fn resolve_root_wz_file_dir_full(
     dir: impl AsRef<Path>,
@@ -30,7 +38,7 @@ pub fn resolve_root_wz_file_dir_full(
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
             .map_err(io::Error::other)?
             .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
+    let wz_dir = parent_dir(dir.as_ref());
 
     {
         let mut root_node_write = root_node.write().unwrap();
@@ -150,12 +158,12 @@ pub fn resolve_base(
     {
         let mut base_write = base_node.write().unwrap();
 
-        let first_parent = path.as_ref().parent().unwrap();
+        let first_parent = parent_dir(path.as_ref());
 
         // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
         // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
+        let wz_root_path = if first_parent.file_stem().is_some_and(|name| name == "Base") {
+            parent_dir(first_parent)
         } else {
             first_parent
         };
-- 
2.43.0


From c76799d0e02d1033f9cfa69d37b91f957ea41743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 57/58] fix: distance of vectors far apart

---
 src/property/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/vector.rs b/src/property/vector.rs
index 67dfe74..1c635ed 100644
--- a/src/property/vector.rs
+++ b/src/property/vector.rs
@@ -13,8 +13,8 @@ impl Vector2D {
         Vector2D(x, y)
     }
     pub fn distance(&self, other: &Vector2D) -> f64 {
-        let x = (other.0 - self.0) as f64;
-        let y = (other.1 - self.1) as f64;
+        let x = other.0 as f64 - self.0 as f64;
+        let y = other.1 as f64 - self.1 as f64;
         (x * x + y * y).sqrt()
     }
 }
-- 
2.43.0


From f9273418f9282fe46e445c00612c49b16f2311fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 58/58] fix: open files by paths that are not text or have no
 name without panicking

---
 src/file.rs     |  2 +-
 src/ms/utils.rs |  2 +-
 src/node.rs     | 16 ++++++++++++----
 src/wz_image.rs |  7 +++----
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 4521d86..fd14eee 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -128,7 +128,7 @@ impl WzFile {
         let offset = reader.header.data_start;
 
         let wz_file_meta = WzFileMeta {
-            path: path.as_ref().to_str().unwrap().to_string(),
+            path: path.as_ref().to_string_lossy().into_owned(),
             patch_version: patch_version.unwrap_or(-1),
             wz_version_header: 0,
             wz_with_encrypt_version_header: true,
diff --git a/src/ms/utils.rs b/src/ms/utils.rs
index b3e2df2..69687f6 100644
--- a/src/ms/utils.rs
+++ b/src/ms/utils.rs
@@ -9,5 +9,5 @@ pub fn get_ascii_file_name<P>(file_name: P)-> String
 where
   P: AsRef<std::path::Path>,
 {
-  file_name.as_ref().file_name().unwrap().to_str().unwrap().to_ascii_lowercase()
+  file_name.as_ref().file_name().unwrap_or_default().to_string_lossy().to_ascii_lowercase()
 }
diff --git a/src/node.rs b/src/node.rs
index ebc5f4a..3c48543 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -98,14 +98,18 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path
+            .as_ref()
+            .file_stem()
+            .unwrap_or_default()
+            .to_string_lossy();
         let wz_file = WzFile::from_file(
             &path,
             version.map(util::version::get_iv_by_maple_version),
             patch_version,
             existing_key,
         )?;
-        Ok(WzNode::new(&name.into(), wz_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), wz_file, parent))
     }
     /// from_wz_file_full with less argements.
     ///
@@ -126,9 +130,13 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path
+            .as_ref()
+            .file_stem()
+            .unwrap_or_default()
+            .to_string_lossy();
         let ms_file = MsFile::from_file(&path)?;
-        Ok(WzNode::new(&name.into(), ms_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), ms_file, parent))
     }
 
     /// Create a `WzNode` from a any `.img` file. If version is not provided, it will try to detect the version.
diff --git a/src/wz_image.rs b/src/wz_image.rs
index 15d6f8c..442f458 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -87,10 +87,9 @@ impl WzImage {
         let name = path
             .as_ref()
             .file_name()
-            .unwrap()
-            .to_str()
-            .unwrap()
-            .to_string();
+            .unwrap_or_default()
+            .to_string_lossy()
+            .into_owned();
         let file = std::fs::File::open(path)?;
         let map = unsafe { memmap2::Mmap::map(&file)? };
 
-- 
2.43.0

