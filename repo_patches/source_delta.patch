From ae444dfe0507f6a96edf6a8d943ca8636b6c7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 01/24] fix: count the length of utf-16 data in bytes

Data::len() returned the number of code units, so files and dumps with utf-16
values were written with atom lengths that are too small.
---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..f933dad 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => 2 * s.encode_utf16().count(),
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From f3867bced985a758eb44026fa4ea01beff517891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 02/24] fix: movie header duration overflow and division by
 zero

A version 1 movie header with a large duration overflowed, a time scale of zero
panicked.
---
 src/atom/mvhd.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..096a03f 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,17 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Converts a duration in time scale units, there may be more of them than nanoseconds fit in 64
+/// bits.
+fn scaled_duration(duration: u64, timescale: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie header (mvhd) time scale is zero".to_owned(),
+        ));
+    }
+
+    let nanos = duration % timescale * 1_000_000_000 / timescale;
+    Ok(Duration::new(duration / timescale, nanos as u32))
+}
-- 
2.43.0


From 336dff9ca064754024bb38b4da082116b7ff14d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 03/24] fix: don't allocate memory for lengths that exceed the
 input

---
 src/atom/co64.rs |  2 +-
 src/atom/data.rs | 12 +++++++-----
 src/atom/stco.rs |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/data.rs b/src/atom/data.rs
index f933dad..fd63be6 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -465,8 +465,12 @@ pub trait ReadData: Read {
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
     fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        // the length is not trusted, only allocate for data that is actually there
+        let mut buf = Vec::new();
+        Read::take(&mut *self, len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
@@ -479,9 +483,7 @@ pub trait ReadData: Read {
 
     /// Attempts to read a utf-16 string from the reader.
     fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From 67a6c35a10dd7b85f45ad3fd264864102db32d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 04/24] fix: reject extended atom lengths that are too small or
 too large

---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From e70e2f71f53522946845397fc999d4cb11cf65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 05/24] fix: seek to the end of atoms that were read beyond it

---
 src/atom/head.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..b8abcfb 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -222,8 +222,6 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 }
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
-    let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
-    reader.seek(SeekFrom::Current(diff as i64))?;
+    reader.seek(SeekFrom::Start(bounds.end()))?;
     Ok(())
 }
-- 
2.43.0


From 0ed0ddc0e9cf7b8760802d96c935dafb8b1fe192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 06/24] fix: reject atoms and descriptors that are too short
 for their content

---
 src/atom/mod.rs  | 16 +++++++++++++---
 src/atom/mp4a.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..ad68958 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,7 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, remaining_len(&head, 8)?)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +221,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(remaining_len(&head, 4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +232,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(remaining_len(&head, 4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
@@ -295,6 +295,16 @@ impl AtomData {
     }
 }
 
+/// Returns the length of the atom's content that remains after the number of bytes already read.
+fn remaining_len(head: &Head, read: u64) -> crate::Result<u64> {
+    head.content_len().checked_sub(read).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Read length of '{}' which is too short: {}", head.fourcc(), head.len()),
+        )
+    })
+}
+
 /// Attempts to read MPEG-4 audio metadata from the reader.
 pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {
     let Ftyp(ftyp) = Ftyp::parse(reader)?;
diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..6a9274e 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,12 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().checked_sub(4 + head_len).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Elementary stream description (esds) atom is too short".to_owned(),
+        )
+    })?;
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -213,6 +218,13 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 3 bits ?
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
+    if len < 2 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Decoder specific descriptor is too short".to_owned(),
+        ));
+    }
+
     let num = reader.read_u16()?;
 
     let freq_index = ((num >> 7) & 0x0F) as u8;
-- 
2.43.0


From 47c1a89f1308f792f55901e3c6600aaeed2845e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 07/24] fix: validate chunk offsets before the file is modified

---
 src/atom/mod.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index ad68958..f61ed6f 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -463,9 +463,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
 
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // adjusting sample table chunk offsets, the file isn't modified until all of them are known
+    let mut chunk_offset_tables = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -476,27 +475,44 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                    let new_offset = u32::try_from(*co as i64 + len_diff).map_err(|_| {
+                        crate::Error::new(
+                            crate::ErrorKind::Parsing,
+                            format!("Chunk offset {} can't be adjusted by {}", co, len_diff),
+                        )
+                    })?;
+                    table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                    let new_offset = u64::try_from(*co as i128 + len_diff as i128).map_err(|_| {
+                        crate::Error::new(
+                            crate::ErrorKind::Parsing,
+                            format!("Chunk offset {} can't be adjusted by {}", co, len_diff),
+                        )
+                    })?;
+                    table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
         }
     }
 
+    let mut writer = BufWriter::new(file);
+
+    for (table_pos, table) in chunk_offset_tables.iter() {
+        writer.seek(SeekFrom::Start(*table_pos))?;
+        writer.write_all(table)?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From 85073e2ee77ebaef4de29c403d49947385c09514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 08/24] fix: only adjust chunk offsets of data that is moved

---
 src/atom/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index f61ed6f..4db32d0 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -477,6 +477,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
+                    // data in front of the metadata stays where it is
+                    let moved = *co as u64 >= moved_data_start;
+                    let len_diff = if moved { len_diff } else { 0 };
                     let new_offset = u32::try_from(*co as i64 + len_diff).map_err(|_| {
                         crate::Error::new(
                             crate::ErrorKind::Parsing,
@@ -493,6 +496,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
+                    // data in front of the metadata stays where it is
+                    let moved = *co >= moved_data_start;
+                    let len_diff = if moved { len_diff } else { 0 };
                     let new_offset = u64::try_from(*co as i128 + len_diff as i128).map_err(|_| {
                         crate::Error::new(
                             crate::ErrorKind::Parsing,
-- 
2.43.0


From 72d49d2ba5887e5de90d3e0f77b25470e52ed572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 09/24] fix: adjust chunk offset tables that are moved
 themselves

---
 src/atom/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 4db32d0..2ee1869 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -515,8 +515,14 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     let mut writer = BufWriter::new(file);
 
     for (table_pos, table) in chunk_offset_tables.iter() {
-        writer.seek(SeekFrom::Start(*table_pos))?;
-        writer.write_all(table)?;
+        if *table_pos >= moved_data_start {
+            // the table itself is part of the moved data that is written later on
+            let start = (*table_pos - moved_data_start) as usize;
+            moved_data[start..start + table.len()].copy_from_slice(table);
+        } else {
+            writer.seek(SeekFrom::Start(*table_pos))?;
+            writer.write_all(table)?;
+        }
     }
 
     // update existing ilst hierarchy atom lengths
-- 
2.43.0


From 2a65124ffee4275933c69f55e571dcef950fff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 10/24] fix: reject metadata atoms that end beyond the file
 when writing

---
 src/atom/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 2ee1869..fce68f8 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -458,7 +458,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
+    let moved_data_len = old_file_len.checked_sub(moved_data_start).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Metadata atoms exceed the length of the file".to_owned(),
+        )
+    })?;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
-- 
2.43.0


From 542089f1523d6f79242fe3dc0aabfcee15257c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 11/24] fix: don't keep an atom without data when setting or
 adding no values

---
 src/tag/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..e8a5dfa 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1269,14 +1269,16 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let data: Vec<Data> = data.into_iter().collect();
+        if data.is_empty() {
+            // an atom without any data can't be read back
+            self.remove_data_of(&ident);
+            return;
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
-            Some(a) => {
-                a.data.clear();
-                a.data.extend(data);
-            }
-            None => {
-                self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
-            }
+            Some(a) => a.data = data,
+            None => self.atoms.push(AtomData::new(ident.into(), data)),
         }
     }
 
@@ -1333,7 +1335,12 @@ impl Tag {
     ) {
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => a.data.extend(data),
-            None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
+            None => {
+                let data: Vec<Data> = data.into_iter().collect();
+                if !data.is_empty() {
+                    self.atoms.push(AtomData::new(ident.into(), data));
+                }
+            }
         }
     }
 
-- 
2.43.0


From 4305928e530aa29e20c4b10a0d78dee565110e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 12/24] fix: take the first of all genres for the singular
 genre accessors

---
 src/tag/genre.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..4b4877d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,11 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        self.take_genres().next()
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From c8b5e5c1fd6a890eef8b39f9155f26c5cd165f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 13/24] fix: remove the track and disc atom once neither number
 nor total is left

---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From e2afc0cad04c988e6f6fe4786f1ee720e32f6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 14/24] fix: don't complete a cut off track or disc number when
 setting the total

---
 src/tag/tuple.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 7179619..1f4969e 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -207,6 +207,10 @@ fn set_number(vec: &mut Vec<u8>, number: u16) {
 }
 
 fn set_total(vec: &mut Vec<u8>, total: u16) {
+    if vec.len() < 4 {
+        // the number is incomplete and absent, extending the data must not complete it
+        vec.truncate(2);
+    }
     set_be_int!(vec, 4, total, u16);
 }
 
-- 
2.43.0


From dd2aa4fe5fe7ec5f8204a02216acd51d2dee2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 15/24] fix: resize the file before modifying anything else

---
 src/atom/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index fce68f8..d77556a 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -517,6 +517,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
+    // adjusting the file length, nothing is modified if this fails
+    file.set_len((old_file_len as i64 + len_diff) as u64)?;
+
     let mut writer = BufWriter::new(file);
 
     for (table_pos, table) in chunk_offset_tables.iter() {
@@ -543,9 +546,6 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
-    // adjusting the file length
-    file.set_len((old_file_len as i64 + len_diff) as u64)?;
-
     // write missing ilst hierarchy and metadata
     writer.seek(SeekFrom::Start(new_atoms_start))?;
 
-- 
2.43.0


From 3182865ac9862214ae71c4f1c412ea14fec973a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 16/24] fix: find the esds atom behind other atoms of the audio
 sample entry

---
 src/atom/mp4a.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 6a9274e..c244349 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -77,15 +77,29 @@ impl ParseAtom for Mp4a {
 
         reader.seek(SeekFrom::Current(28))?;
 
-        let head = parse_head(reader)?;
-        if head.fourcc() != ELEMENTARY_STREAM_DESCRIPTION {
-            return Err(crate::Error::new(
-                crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
-                "Missing esds atom".to_owned(),
-            ));
-        }
+        let mut parsed_bytes = 28;
+        loop {
+            if parsed_bytes >= size.content_len() {
+                return Err(crate::Error::new(
+                    crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
+                    "Missing esds atom".to_owned(),
+                ));
+            }
+
+            let head = parse_head(reader)?;
 
-        parse_esds(reader, &mut mp4a, head.size())?;
+            match head.fourcc() {
+                ELEMENTARY_STREAM_DESCRIPTION => {
+                    parse_esds(reader, &mut mp4a, head.size())?;
+                    break;
+                }
+                _ => {
+                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;
+                }
+            }
+
+            parsed_bytes += head.len();
+        }
 
         seek_to_end(reader, &bounds)?;
 
-- 
2.43.0


From c71f72f1e6815666a69699d0cb16ff93d8ac1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 17/24] fix: skip the optional fields of the elementary stream
 descriptor

---
 src/atom/mp4a.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index c244349..ce903ae 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -58,6 +58,13 @@ const DECODER_CONFIG_DESCRIPTOR: u8 = 0x04;
 /// Decoder specific descriptor tag
 const DECODER_SPECIFIC_DESCRIPTOR: u8 = 0x05;
 
+/// Flag of the es descriptor indicating that the id of another stream is present
+const STREAM_DEPENDENCE_FLAG: u8 = 0x80;
+/// Flag of the es descriptor indicating that an url is present
+const URL_FLAG: u8 = 0x40;
+/// Flag of the es descriptor indicating that the id of a clock reference stream is present
+const OCR_STREAM_FLAG: u8 = 0x20;
+
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
 pub struct Mp4a {
     pub channel_config: Option<ChannelConfig>,
@@ -159,6 +166,9 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
 /// 1~4 bytes len
 /// 2 bytes id
 /// 1 byte flag
+/// 2 bytes id of the stream this one depends on, if the stream dependence flag is set
+/// 1 byte len and url, if the url flag is set
+/// 2 bytes id of the clock reference stream, if the ocr stream flag is set
 /// │
 /// ├──decoder config descriptor
 /// │  │
@@ -167,9 +177,24 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
 /// └──sl config descriptor
 /// ```
 fn parse_es_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
-    reader.seek(SeekFrom::Current(3))?;
+    reader.seek(SeekFrom::Current(2))?;
+    let flags = reader.read_u8()?;
 
     let mut parsed_bytes = 3;
+    if flags & STREAM_DEPENDENCE_FLAG != 0 {
+        reader.seek(SeekFrom::Current(2))?;
+        parsed_bytes += 2;
+    }
+    if flags & URL_FLAG != 0 {
+        let url_len = reader.read_u8()?;
+        reader.seek(SeekFrom::Current(url_len as i64))?;
+        parsed_bytes += 1 + url_len as u64;
+    }
+    if flags & OCR_STREAM_FLAG != 0 {
+        reader.seek(SeekFrom::Current(2))?;
+        parsed_bytes += 2;
+    }
+
     while parsed_bytes < len {
         let (tag, head_len, desc_len) = parse_desc_head(reader)?;
 
-- 
2.43.0


From 4d8a032f7a495efba11d4eec5bfca0e991ec7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 18/24] fix: respect escapes in the decoder specific descriptor

---
 src/atom/mp4a.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index ce903ae..caf88af 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -58,6 +58,11 @@ const DECODER_CONFIG_DESCRIPTOR: u8 = 0x04;
 /// Decoder specific descriptor tag
 const DECODER_SPECIFIC_DESCRIPTOR: u8 = 0x05;
 
+/// Profile indicating that an extended profile follows
+const ESCAPE_PROFILE: u64 = 31;
+/// Frequency index indicating that an explicit frequency follows
+const EXPLICIT_FREQUENCY: u8 = 15;
+
 /// Flag of the es descriptor indicating that the id of another stream is present
 const STREAM_DEPENDENCE_FLAG: u8 = 0x80;
 /// Flag of the es descriptor indicating that an url is present
@@ -252,9 +257,11 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 1 byte tag (0x05)
 /// 1~4 bytes len
 /// 5 bits profile
+/// 6 bits extended profile, if the profile is 31
 /// 4 bits frequency index
+/// 24 bits frequency, if the frequency index is 15
 /// 4 bits channel config
-/// 3 bits ?
+/// ...
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
     if len < 2 {
@@ -264,15 +271,27 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
         ));
     }
 
-    let num = reader.read_u16()?;
+    let read_len = min(len, 6);
+    let mut buf = [0; 8];
+    reader.read_exact(&mut buf[..read_len as usize])?;
+    let num = u64::from_be_bytes(buf);
+
+    let mut pos = 5;
+    if num >> 59 == ESCAPE_PROFILE {
+        pos += 6;
+    }
 
-    let freq_index = ((num >> 7) & 0x0F) as u8;
+    let freq_index = ((num >> (60 - pos)) & 0x0F) as u8;
     info.sample_rate = SampleRate::try_from(freq_index).ok();
+    pos += 4;
+    if freq_index == EXPLICIT_FREQUENCY {
+        pos += 24;
+    }
 
-    let channel_config = ((num >> 3) & 0x0F) as u8;
+    let channel_config = ((num >> (60 - pos)) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current((len - read_len) as i64))?;
     Ok(())
 }
 
-- 
2.43.0


From 09e108a7e049eb6fbfd4f240d4a925dbce508795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 19/24] fix: refuse to write when the new length of an atom
 doesn't fit its header

---
 src/atom/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index d77556a..e55d3b0 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -517,6 +517,17 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
+    // the file isn't modified if the new length of an atom can't be represented
+    for a in update_atoms.iter() {
+        let new_len = a.len() as i64 + len_diff;
+        if !a.ext() && new_len > u32::MAX as i64 {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Atom length {} doesn't fit into a standard head", new_len),
+            ));
+        }
+    }
+
     // adjusting the file length, nothing is modified if this fails
     file.set_len((old_file_len as i64 + len_diff) as u64)?;
 
-- 
2.43.0


From 8570b2b8862ed4faa45285e664748c9c4df2bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 20/24] fix: return the I/O error as the source of an error

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index d6004bd..9490a51 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -54,7 +54,7 @@ impl Error {
 }
 
 impl error::Error for Error {
-    fn cause(&self) -> Option<&dyn error::Error> {
+    fn source(&self) -> Option<&(dyn error::Error + 'static)> {
         match self.kind {
             ErrorKind::Io(ref err) => Some(err),
             _ => None,
-- 
2.43.0


From 131ca68c66349e83d2d98d738181006c1055939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 21/24] fix: correct the names of three standard genres

Code 61 is "Top 40", and "Hip-Hop" and "Lo-Fi" have no comma.
---
 src/tag/genre.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 4b4877d..b022218 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -12,7 +12,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Disco",
     "Funk",
     "Grunge",
-    "Hip,-Hop",
+    "Hip-Hop",
     "Jazz",
     "Metal",
     "New Age",
@@ -65,7 +65,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Comedy",
     "Cult",
     "Gangsta",
-    "Top 41",
+    "Top 40",
     "Christian Rap",
     "Pop/Funk",
     "Jungle",
@@ -76,7 +76,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Rave",
     "Show tunes",
     "Trailer",
-    "Lo,-Fi",
+    "Lo-Fi",
     "Tribal",
     "Acid Punk",
     "Acid Jazz",
-- 
2.43.0


From d72ec844ac219a0f641388d5f8d810037bfa9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 22/24] fix: refuse to write or dump items that are longer than
 4 GiB

An item and its values always have a 32-bit length, which was wrapped.
---
 src/atom/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index e55d3b0..ec81a0d 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -305,6 +305,17 @@ fn remaining_len(head: &Head, read: u64) -> crate::Result<u64> {
     })
 }
 
+/// Returns an error if the length of an item, which always has a standard head, is too large.
+fn check_item_len(atoms: &[AtomData]) -> crate::Result<()> {
+    match atoms.iter().find(|a| a.len() > u32::MAX as u64) {
+        Some(a) => Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Item length {} doesn't fit into a standard head", a.len()),
+        )),
+        None => Ok(()),
+    }
+}
+
 /// Attempts to read MPEG-4 audio metadata from the reader.
 pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {
     let Ftyp(ftyp) = Ftyp::parse(reader)?;
@@ -455,6 +466,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         new_hdlr.len_or_zero() + new_ilst.len()
     };
     len_diff += new_atom_len as i64;
+    check_item_len(atoms)?;
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
@@ -594,6 +606,8 @@ pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate:
         ..Default::default()
     };
 
+    check_item_len(atoms)?;
+
     ftyp.write(writer)?;
     moov.write(writer)?;
 
-- 
2.43.0


From 7749f2928ab021e6540a8da02f6064501804741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 23/24] fix: reject movie headers, sample descriptions and
 metadata atoms too short for their fields

---
 src/atom/meta.rs |  2 ++
 src/atom/mod.rs  | 11 +++++++++++
 src/atom/mvhd.rs |  2 ++
 src/atom/stsd.rs |  1 +
 4 files changed, 16 insertions(+)

diff --git a/src/atom/meta.rs b/src/atom/meta.rs
index 75f0d75..9e5ac67 100644
--- a/src/atom/meta.rs
+++ b/src/atom/meta.rs
@@ -12,6 +12,7 @@ impl Atom for Meta<'_> {
 
 impl ParseAtom for Meta<'_> {
     fn parse_atom(reader: &'_ mut (impl Read + Seek), size: Size) -> crate::Result<Self> {
+        check_len(Self::FOURCC, size, 4)?;
         let (version, _) = parse_full_head(reader)?;
 
         if version != 0 {
@@ -92,6 +93,7 @@ impl FindAtom for Meta<'_> {
     type Bounds = MetaBounds;
 
     fn find_atom(reader: &mut (impl Read + Seek), size: Size) -> crate::Result<Self::Bounds> {
+        check_len(Self::FOURCC, size, 4)?;
         let bounds = find_bounds(reader, size)?;
         let (version, _) = parse_full_head(reader)?;
 
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index ec81a0d..403ff4e 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -305,6 +305,17 @@ fn remaining_len(head: &Head, read: u64) -> crate::Result<u64> {
     })
 }
 
+/// Returns an error if the content of an atom is too short for its fields.
+fn check_len(fourcc: Fourcc, size: Size, min: u64) -> crate::Result<()> {
+    if size.content_len() < min {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Read length of '{}' which is too short: {}", fourcc, size.len()),
+        ));
+    }
+    Ok(())
+}
+
 /// Returns an error if the length of an item, which always has a standard head, is too large.
 fn check_item_len(atoms: &[AtomData]) -> crate::Result<()> {
     match atoms.iter().find(|a| a.len() > u32::MAX as u64) {
diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index 096a03f..800a03d 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -29,6 +29,7 @@ impl ParseAtom for Mvhd {
                 // 4 bytes time scale
                 // 4 bytes duration
                 // ...
+                check_len(Self::FOURCC, size, 20)?;
                 reader.seek(SeekFrom::Current(8))?;
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
@@ -44,6 +45,7 @@ impl ParseAtom for Mvhd {
                 // 4 bytes time scale
                 // 8 bytes duration
                 // ...
+                check_len(Self::FOURCC, size, 32)?;
                 reader.seek(SeekFrom::Current(16))?;
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
diff --git a/src/atom/stsd.rs b/src/atom/stsd.rs
index ba7df89..6616547 100644
--- a/src/atom/stsd.rs
+++ b/src/atom/stsd.rs
@@ -11,6 +11,7 @@ impl Atom for Stsd {
 
 impl ParseAtom for Stsd {
     fn parse_atom(reader: &mut (impl Read + Seek), size: Size) -> crate::Result<Self> {
+        check_len(Self::FOURCC, size, 8)?;
         let (version, _) = parse_full_head(reader)?;
 
         if version != 0 {
-- 
2.43.0


From c77d6486480ec6e4938818f4318b1079d39f8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 24/24] fix: reject decoder config descriptors too short for
 their fields

---
 src/atom/mp4a.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index caf88af..2145ebd 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -230,6 +230,13 @@ fn parse_es_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// └──decoder specific descriptor
 /// ```
 fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
+    if len < 13 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Decoder config descriptor is too short".to_owned(),
+        ));
+    }
+
     reader.seek(SeekFrom::Current(5))?;
     info.max_bitrate = Some(reader.read_u32()?);
     info.avg_bitrate = Some(reader.read_u32()?);
-- 
2.43.0

