From a41ed315b0a0232a8d9251b5acd5db97ab9e16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/18] fix: arithmetic overflow on extreme size and offset
 fields in ASF, MP4 and ZIP64 readers

---
 src/readers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..29d73e4 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -112,7 +112,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -147,11 +147,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(offset.saturating_add(size) - 26))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
@@ -582,11 +582,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
                 }
             }
 
@@ -909,7 +909,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From e7bde1c7d3a998342b6dd401e5816d395036f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 02/18] fix: boxes with an extended size are skipped 8 bytes
 too far in MP4 reader

---
 src/readers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 29d73e4..e3051b7 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -558,9 +558,9 @@ impl crate::FileFormat {
             // Reads the box type.
             let box_type = reader.read_bytes(4)?;
 
-            // Handles the extended box size.
+            // Handles the extended box size, excluding the 8 additional bytes of the box header.
             let size = if size == 1 {
-                reader.read_u64_be()?
+                reader.read_u64_be()?.saturating_sub(8)
             } else {
                 size as u64
             };
-- 
2.43.0


From 43a5a9808d222de3a009e92b737ef5e51315f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 03/18] fix: unbounded allocation from the size of the mimetype
 entry in ZIP reader

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index e3051b7..95d045d 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -872,6 +872,9 @@ impl crate::FileFormat {
         // Minimum size of the end of central directory record.
         const EOCD_MIN_SIZE: usize = 22;
 
+        // Maximum size of the mimetype entry data that can be handled by the reader.
+        const MIMETYPE_LIMIT: usize = 1024;
+
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
@@ -995,7 +998,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let data = reader
+                        .read_string(std::cmp::min(MIMETYPE_LIMIT, compressed_size as usize))?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From 06996e3f02f20e9d0cb6ac2ccd2528d843a84aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 04/18] fix: detection depends on how the reader splits its
 reads

---
 src/lib.rs     |  3 ++-
 src/readers.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..d287848 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,6 +227,7 @@ use std::{
 };
 
 pub use formats::FileFormat;
+use readers::ReadData;
 
 impl FileFormat {
     /// Determines file format from bytes.
@@ -292,7 +293,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index 95d045d..03b2c7c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -631,7 +631,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -734,7 +734,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -784,7 +784,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1104,7 +1104,7 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
@@ -1135,6 +1135,22 @@ trait ReadData: Read {
         Ok(String::from_utf8_lossy(&self.read_bytes(size)?).to_string())
     }
 
+    /// Reads bytes into the buffer until it is full or the end of the stream is reached, and returns
+    /// the number of bytes read.
+    #[inline]
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(n) => nread += n,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a single `u8` value.
     #[inline]
     fn read_u8(&mut self) -> Result<u8> {
-- 
2.43.0


From 844219a813933b7e02656fbc4cee0f2d4904cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/18] fix: unbounded number of tags processed by ID3v2 reader

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 03b2c7c..3634fc8 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -465,9 +465,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 256;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 1096f7880e6dc2a44627e345ee89246e82f20337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 06/18] fix: extended header of an ID3v2 tag is skipped twice
 in ID3v2 reader

---
 src/readers.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3634fc8..695592c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -486,19 +486,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size includes the extended header, if any).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From 9d426007e7250a533faca870533e69202adeec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 07/18] fix: ID3v2 tags followed by fewer than 10 bytes are not
 detected by ID3v2 reader

---
 src/readers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 695592c..a658c4f 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -473,10 +473,11 @@ impl crate::FileFormat {
         for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
-            let buf = reader.read_bytes(10)?;
+            let mut buf = [0; 10];
+            let nread = reader.read_up_to(&mut buf)?;
 
             // Checks for ID3 magic bytes.
-            if &buf[..3] != b"ID3" {
+            if nread < buf.len() || !buf.starts_with(b"ID3") {
                 break;
             }
 
@@ -506,7 +507,8 @@ impl crate::FileFormat {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Checks if the file contains the FLAC file format signature.
-        let buf = reader.read_bytes(4)?;
+        let mut buf = [0; 4];
+        reader.read_up_to(&mut buf)?;
         if buf.eq(b"fLaC") {
             return Ok(Self::FreeLosslessAudioCodec);
         }
-- 
2.43.0


From a3eecafdd78cde910677821e645a0b7aa819e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 08/18] fix: StereoMode elements are assumed to be one byte
 long in EBML reader

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index a658c4f..90dc0fc 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -272,6 +272,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -391,12 +394,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From 2242747c5babddd1b28e7023a1307059134ab796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/18] fix: text with a character crossing the read limit is
 not detected by TXT reader

---
 src/readers.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 90dc0fc..1a4a085 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -769,18 +769,33 @@ impl crate::FileFormat {
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
-        reader
-            .take(READ_LIMIT)
-            .lines()
-            .take(LINE_LIMIT)
-            .try_for_each(|line| {
-                line?
-                    .chars()
-                    .find(|char| char.is_control() && !char.is_whitespace())
-                    .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
-                    .unwrap_or(Ok(()))
-            })
-            .map(|_| Self::PlainText)
+        let mut reader = reader.take(READ_LIMIT);
+        let mut line = Vec::new();
+        for _ in 0..LINE_LIMIT {
+            // Reads a line.
+            line.clear();
+            if reader.read_until(b'\n', &mut line)? == 0 {
+                break;
+            }
+
+            // Decodes the line, ignoring a last character that is cut by the read limit.
+            let text = match std::str::from_utf8(&line) {
+                Err(err) if reader.limit() == 0 && err.error_len().is_none() => {
+                    std::str::from_utf8(&line[..err.valid_up_to()])
+                }
+                result => result,
+            }
+            .map_err(|err| Error::new(ErrorKind::InvalidData, err))?;
+
+            // Checks the characters.
+            if text
+                .chars()
+                .any(|char| char.is_control() && !char.is_whitespace())
+            {
+                return Err(Error::new(ErrorKind::InvalidData, "invalid characters"));
+            }
+        }
+        Ok(Self::PlainText)
     }
 
     /// Determines file format from a XML reader.
-- 
2.43.0


From d758f852bbd0c95ec2fee185dbc3ba57a45277ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/18] fix: archive comment holding the EOCD signature hides
 the EOCD from ZIP reader

---
 src/readers.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 1a4a085..2a1a859 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -906,10 +906,27 @@ impl crate::FileFormat {
         // Searches for the end of central directory record.
         let offset = len.saturating_sub(EOCD_MAX_SIZE as u64);
         reader.seek(SeekFrom::Start(offset))?;
-        let buf_index = reader
-            .read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?
+        let buf = reader.read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?;
+        let last_index = buf
             .rfind(EOCD_SIGNATURE)
             .ok_or_else(|| Error::new(ErrorKind::InvalidData, "cannot find the EOCD"))?;
+
+        // Prefers a record whose comment extends to the end of the stream, since the comment itself
+        // may hold the signature.
+        let mut index = Some(last_index);
+        let buf_index = loop {
+            match index {
+                Some(index)
+                    if index + EOCD_MIN_SIZE <= buf.len()
+                        && u16::from_le_bytes([buf[index + 20], buf[index + 21]]) as usize
+                            == buf.len() - index - EOCD_MIN_SIZE =>
+                {
+                    break index;
+                }
+                Some(end) => index = buf[..end].rfind(EOCD_SIGNATURE),
+                None => break last_index,
+            }
+        };
         let eocd_offset = offset + buf_index as u64;
 
         // Checks for ZIP64 end of central directory locator.
-- 
2.43.0


From 5ad201ae3353d7f8372eca4bd4f788c35df8dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 11/18] fix: lefi example panics on a path that is not valid
 Unicode

---
 examples/lefi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/lefi.rs b/examples/lefi.rs
index 3d95bd2..27dd04e 100644
--- a/examples/lefi.rs
+++ b/examples/lefi.rs
@@ -15,15 +15,15 @@ use file_format::FileFormat;
 use std::{env, io::Result, ops::Add, path::Path};
 
 fn main() -> Result<()> {
-    let width = env::args()
+    let width = env::args_os()
         .skip(1)
-        .map(|input| input.chars().count())
+        .map(|input| input.to_string_lossy().chars().count())
         .max_by_key(|&count| count)
         .unwrap_or_default()
         .add(1);
-    for arg in env::args().skip(1) {
+    for arg in env::args_os().skip(1) {
         let path = Path::new(&arg);
-        let input = format!("{arg}:");
+        let input = format!("{}:", path.display());
         if path.is_symlink() {
             println!("{input:width$} Symbolic Link");
         } else if path.is_dir() {
-- 
2.43.0


From 59972543f00ee812c3dd5faf99cbb7f90aa94e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 12/18] fix: arithmetic overflow on a record at the end of an
 endless stream in ZIP reader

---
 src/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 2a1a859..137e9b9 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -962,7 +962,7 @@ impl crate::FileFormat {
             (number_of_entries as usize, socd_offset)
         } else {
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd_offset + 10))?;
+            reader.seek(SeekFrom::Start(eocd_offset.saturating_add(10)))?;
             let number_of_entries = reader.read_u16_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From f69390ea7603e24d54759d50067cdb265ea5336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 13/18] fix: sizes beyond the end of the stream give other
 results for files in ASF, EBML and MP4 readers

---
 src/readers.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 137e9b9..bb781ab 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -79,6 +79,9 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Reads the number of header objects.
         reader.seek(SeekFrom::Start(24))?;
         let number_of_header_objects = reader.read_u32_le()?;
@@ -95,8 +98,8 @@ impl crate::FileFormat {
             // Reads the object GUID.
             let guid = reader.read_guid()?;
 
-            // Reads the object size.
-            let size = reader.read_u64_le()?;
+            // Reads the object size, limited to the stream length.
+            let size = std::cmp::min(len, reader.read_u64_le()?);
 
             // Checks the object GUID.
             match guid.as_str() {
@@ -351,6 +354,9 @@ impl crate::FileFormat {
                 size = (size << 8) | (byte as u64);
             }
 
+            // Limits the element size to the stream length.
+            let size = std::cmp::min(len, size);
+
             // Checks the element ID.
             match id {
                 EBML_ELEMENT_ID
@@ -572,6 +578,9 @@ impl crate::FileFormat {
                 size as u64
             };
 
+            // Limits the box size to the stream length.
+            let size = std::cmp::min(len, size);
+
             // Checks the box type.
             match box_type.as_slice() {
                 b"moov" | b"trak" | b"mdia" => {}
-- 
2.43.0


From f8c0a6d5c32c1938f908bc5fbb401c79a0f29fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 14/18] Revert "fix: lefi example panics on a path that is not
 valid Unicode"

This reverts commit 5ad201ae3353d7f8372eca4bd4f788c35df8dc44.
---
 examples/lefi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/lefi.rs b/examples/lefi.rs
index 27dd04e..3d95bd2 100644
--- a/examples/lefi.rs
+++ b/examples/lefi.rs
@@ -15,15 +15,15 @@ use file_format::FileFormat;
 use std::{env, io::Result, ops::Add, path::Path};
 
 fn main() -> Result<()> {
-    let width = env::args_os()
+    let width = env::args()
         .skip(1)
-        .map(|input| input.to_string_lossy().chars().count())
+        .map(|input| input.chars().count())
         .max_by_key(|&count| count)
         .unwrap_or_default()
         .add(1);
-    for arg in env::args_os().skip(1) {
+    for arg in env::args().skip(1) {
         let path = Path::new(&arg);
-        let input = format!("{}:", path.display());
+        let input = format!("{arg}:");
         if path.is_symlink() {
             println!("{input:width$} Symbolic Link");
         } else if path.is_dir() {
-- 
2.43.0


From dfa413ac125aafc3769de5014dbd47501840c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 15/18] fix: do not truncate 64-bit sizes and offsets to the
 pointer width in the EBML and ZIP readers

---
 src/readers.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index bb781ab..5cbba28 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -367,7 +367,7 @@ impl crate::FileFormat {
                 DOC_TYPE_ELEMENT_ID => {
                     // Reads the DocType.
                     let doc_type =
-                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(DOC_TYPE_LIMIT as u64, size) as usize)?;
 
                     // Checks the DocType.
                     if doc_type.starts_with(b"webm") {
@@ -383,7 +383,7 @@ impl crate::FileFormat {
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
                     let codec_id =
-                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT as u64, size) as usize)?;
 
                     // Checks the Codec ID.
                     if codec_id.starts_with(b"A_") {
@@ -401,7 +401,7 @@ impl crate::FileFormat {
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
                     let stereo_mode =
-                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT as u64, size) as usize)?;
 
                     // Checks the StereoMode.
                     if stereo_mode.iter().any(|&byte| byte > 0) {
@@ -915,7 +915,8 @@ impl crate::FileFormat {
         // Searches for the end of central directory record.
         let offset = len.saturating_sub(EOCD_MAX_SIZE as u64);
         reader.seek(SeekFrom::Start(offset))?;
-        let buf = reader.read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?;
+        let buf =
+            reader.read_bytes(len.clamp(EOCD_MIN_SIZE as u64, EOCD_MAX_SIZE as u64) as usize)?;
         let last_index = buf
             .rfind(EOCD_SIGNATURE)
             .ok_or_else(|| Error::new(ErrorKind::InvalidData, "cannot find the EOCD"))?;
@@ -940,7 +941,7 @@ impl crate::FileFormat {
 
         // Checks for ZIP64 end of central directory locator.
         let mut zip64 = false;
-        if eocd_offset as usize >= EOCD64_LOCATOR_SIZE {
+        if eocd_offset >= EOCD64_LOCATOR_SIZE as u64 {
             // Seeks to the ZIP64 end of central directory locator.
             reader.seek(SeekFrom::Start(eocd_offset - EOCD64_LOCATOR_SIZE as u64))?;
 
@@ -968,7 +969,7 @@ impl crate::FileFormat {
             let socd_offset = reader.read_u64_le()?;
 
             // Returns the result.
-            (number_of_entries as usize, socd_offset)
+            (number_of_entries, socd_offset)
         } else {
             // Reads the number of entries.
             reader.seek(SeekFrom::Start(eocd_offset.saturating_add(10)))?;
@@ -979,7 +980,7 @@ impl crate::FileFormat {
             let socd_offset = reader.read_u32_le()?;
 
             // Returns the result.
-            (number_of_entries as usize, socd_offset as u64)
+            (number_of_entries as u64, socd_offset as u64)
         };
 
         // Seeks to the start of central directory.
@@ -989,7 +990,7 @@ impl crate::FileFormat {
         let mut fmt = Self::Zip;
 
         // Browses central directory headers.
-        for _ in 0..std::cmp::min(ENTRY_LIMIT, number_of_entries) {
+        for _ in 0..std::cmp::min(ENTRY_LIMIT as u64, number_of_entries) {
             // Reads the compressed size.
             reader.seek(SeekFrom::Current(20))?;
             let compressed_size = reader.read_u32_le()?;
-- 
2.43.0


From f53cfb83e9134a418bec58ddcb5983ff45e998d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 16/18] fix: do not take a deflated mimetype entry of unchanged
 size for a stored one

---
 src/readers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5cbba28..3dd6848 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -991,8 +991,12 @@ impl crate::FileFormat {
 
         // Browses central directory headers.
         for _ in 0..std::cmp::min(ENTRY_LIMIT as u64, number_of_entries) {
+            // Reads the compression method.
+            reader.seek(SeekFrom::Current(10))?;
+            let compression_method = reader.read_u16_le()?;
+
             // Reads the compressed size.
-            reader.seek(SeekFrom::Current(20))?;
+            reader.seek(SeekFrom::Current(8))?;
             let compressed_size = reader.read_u32_le()?;
 
             // Reads the uncompressed size.
@@ -1031,7 +1035,7 @@ impl crate::FileFormat {
                 "doc.kml" => return Ok(Self::KeyholeMarkupLanguageZip),
                 "document.json" => return Ok(Self::Sketch43),
                 "extension.vsixmanifest" => return Ok(Self::MicrosoftVisualStudioExtension),
-                "mimetype" if compressed_size == uncompressed_size => {
+                "mimetype" if compression_method == 0 && compressed_size == uncompressed_size => {
                     // Seeks to the filename of the local file header.
                     reader.seek(SeekFrom::Start(offset as u64 + 26))?;
 
-- 
2.43.0


From 054393fc4c9bc9e254a3324bddf6b6bbd0c0e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 17/18] fix: limit the central directory offset to the stream
 length

The verdict for an empty archive with an offset of 2^63 or more depended on
the source: seeking there fails for files and succeeds for in-memory streams.
---
 src/readers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3dd6848..ae13b4d 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -983,8 +983,8 @@ impl crate::FileFormat {
             (number_of_entries as u64, socd_offset as u64)
         };
 
-        // Seeks to the start of central directory.
-        reader.seek(SeekFrom::Start(socd_offset))?;
+        // Seeks to the start of central directory, limited to the stream length.
+        reader.seek(SeekFrom::Start(std::cmp::min(len, socd_offset)))?;
 
         // Sets the default value.
         let mut fmt = Self::Zip;
-- 
2.43.0


From 568c719a25da3b76c6cbc01157fb49a3448743cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:29 +0000
Subject: [PATCH 18/18] fix: follow the ZIP64 locator only if a field is
 deferred to it

---
 src/readers.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index ae13b4d..651f290 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -939,9 +939,20 @@ impl crate::FileFormat {
         };
         let eocd_offset = offset + buf_index as u64;
 
+        // Checks if a field of the end of central directory record is deferred to the ZIP64 record,
+        // since the last file comment may hold the signature of the locator.
+        let deferred = buf
+            .get(buf_index + 8..buf_index + 20)
+            .is_some_and(|fields| {
+                fields[..2] == [0xFF; 2]
+                    || fields[2..4] == [0xFF; 2]
+                    || fields[4..8] == [0xFF; 4]
+                    || fields[8..] == [0xFF; 4]
+            });
+
         // Checks for ZIP64 end of central directory locator.
         let mut zip64 = false;
-        if eocd_offset >= EOCD64_LOCATOR_SIZE as u64 {
+        if deferred && eocd_offset >= EOCD64_LOCATOR_SIZE as u64 {
             // Seeks to the ZIP64 end of central directory locator.
             reader.seek(SeekFrom::Start(eocd_offset - EOCD64_LOCATOR_SIZE as u64))?;
 
-- 
2.43.0

