From 5e265f8f462f360416d08bb0cd50c4964f5c0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 01/35] fix: reject buffered bytes beyond the declared length
 in read_to_end

---
 src/parse/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..8c80568 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -160,6 +160,9 @@ impl<R: Read> Buffer<R> {
     /// bytes read is not `size`, returns an error.
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
 
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
-- 
2.43.0


From e0acc3303dd9e0000640cb153f0a52164fdcc256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 02/35] fix: do not allocate a declared length before the data
 is read

---
 src/parse/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 8c80568..7dfb4d3 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -20,6 +20,9 @@ pub(crate) struct Buffer<R> {
 }
 
 impl<R: Read> Buffer<R> {
+    // The most the buffer is grown by ahead of a single read.
+    const MAX_READ_LEN: usize = 64 * 1024;
+
     pub fn new(reader: R) -> Self {
         Buffer {
             reader,
@@ -185,6 +188,8 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
+            // `end` may come from a corrupt length, so don't allocate it all up front.
+            let end = end.min(old_len.saturating_add(Self::MAX_READ_LEN));
             self.buffer.resize(end, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
-- 
2.43.0


From e66ff6397f7501989deffd7f153594dd171f15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 03/35] fix: decompress packed objects

---
 src/object/database/packed/pack.rs | 12 +++++++++---
 src/object/database/reader.rs      | 26 +++++---------------------
 src/parse/buffer.rs                | 21 +++++----------------
 3 files changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..903f3d4 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,9 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let data_offset = offset + buffer.pos() as u64;
+                    buffer.seek(SeekFrom::Start(data_offset))?;
+                    let base = buffer.decompress().read_to_end(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -203,7 +204,12 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let instructions = buffer.decompress().read_to_end(delta.header.len)?;
+        let result = apply_delta(
+            delta.header.kind,
+            &base,
+            &mut parse::Buffer::new(&*instructions),
+        )?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..c78506c 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,11 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    File(ZlibDecoder<BufReader<fs_err::File>>),
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +25,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +35,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +63,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 7dfb4d3..e707ae1 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -43,14 +42,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Clear the internal buffer
     pub fn clear_buffer(&mut self) {
         self.pos = 0;
@@ -65,15 +56,13 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+    /// Return a buffer that decompresses a zlib stream starting at the current position of the reader.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress<'a>(&'a mut self) -> Buffer<ZlibDecoder<impl Read + 'a>> {
         debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
 
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+        Buffer::new(ZlibDecoder::new(self.reader.by_ref()))
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From bc0e00d9e912d5523d98e8e75202511ac7631b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 04/35] fix: apply delta commands

---
 src/object/database/packed/delta.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..e076c95 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -40,7 +40,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::new();
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,7 +61,10 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
@@ -132,7 +135,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From c99557d73afdf652c03233011d7b5abd6cf65d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 05/35] fix: keep unread data when clearing a buffer

---
 src/parse/buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index e707ae1..890097a 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -2,7 +2,7 @@ use std::io::{self, Read, Seek, SeekFrom};
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use flate2::read::ZlibDecoder;
 use memchr::memchr;
 
@@ -42,10 +42,10 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Clear the internal buffer
+    /// Discard the data before the current position from the internal buffer
     pub fn clear_buffer(&mut self) {
+        self.buffer.advance(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From 164f473897a3fa24b965f7694c2670a8abec1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 06/35] fix: give objects stored as deltas the kind of their
 base

---
 src/object/database/packed/pack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 903f3d4..1236292 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -128,7 +128,7 @@ impl PackFile {
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         for entry in chain {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -197,6 +197,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -206,7 +207,7 @@ impl PackFile {
 
         let instructions = buffer.decompress().read_to_end(delta.header.len)?;
         let result = apply_delta(
-            delta.header.kind,
+            kind,
             &base,
             &mut parse::Buffer::new(&*instructions),
         )?;
-- 
2.43.0


From 0ba07ed7b99238810e8bced5b1577e739061decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 07/35] fix: apply delta chains starting from the base object

---
 src/object/database/packed/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 1236292..3f94dfd 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,7 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From 8f644c148fe52c28111ea518cd87f2c477591679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 08/35] fix: decode multi-byte delta offsets

---
 src/object/database/packed/pack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 3f94dfd..c9150ff 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -286,10 +286,15 @@ impl<R: Read> parse::Buffer<R> {
         let parser = &mut self.parser(range);
 
         let mut offset: u64 = 0;
+        let mut first = true;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            // Each continuation adds one, so that there is only one encoding of every offset
+            if !first {
+                offset = offset.saturating_add(1).saturating_mul(1 << 7);
+            }
+            first = false;
+            offset = offset.saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From 58081fff7e44411b86649be796bc844280573494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 09/35] fix: detect delta loops of more than one object

---
 src/object/database/packed/pack.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index c9150ff..d55a61c 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fmt;
 use std::io::{self, Read, Seek, SeekFrom};
 use std::mem::size_of;
@@ -146,6 +147,8 @@ impl PackFile {
         mut offset: u64,
     ) -> Result<(Chain, ObjectHeader, Bytes), ReadPackFileError> {
         let mut chain = Chain::new();
+        let mut visited = HashSet::new();
+        visited.insert(offset);
 
         let mut buffer = self.file.lock().unwrap();
 
@@ -188,7 +191,7 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            if !visited.insert(base_offset) {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From 01014b05855edb29586923cb08a96133cf909d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 10/35] fix: reject sizes that do not fit instead of dropping
 their high bits

---
 src/object/database/packed/delta.rs | 1 +
 src/object/database/packed/pack.rs  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index e076c95..f2021ef 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -121,6 +121,7 @@ where
             let byte = parser.parse_byte()?;
             len |= usize::from(byte & 0b0111_1111)
                 .checked_shl(shift)
+                .filter(|bits| bits >> shift == usize::from(byte & 0b0111_1111))
                 .ok_or(DeltaError::InvalidHeader)?;
             shift += 7;
         }
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index d55a61c..38cf36a 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -270,6 +270,7 @@ impl<R: Read> parse::Buffer<R> {
             byte = parser.parse_byte()?;
             len |= usize::from(byte & 0b0111_1111)
                 .checked_shl(shift)
+                .filter(|bits| bits >> shift == usize::from(byte & 0b0111_1111))
                 .ok_or(ReadPackFileError::Other("invalid object size"))?;
             shift += 7;
         }
-- 
2.43.0


From 6984cc4f1616d6077f8592171ed3c5601081619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 11/35] fix: reject pack indexes with a partial large offset

---
 src/object/database/packed/index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..be89a53 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -135,6 +135,12 @@ impl IndexFile {
             ));
         }
 
+        if (parser.remaining() - min_size) % size_of::<U64<NetworkEndian>>() != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
+
         Ok(IndexFile {
             data: parser.into_inner(),
             count,
-- 
2.43.0


From 08f047f3f2714159c5c07e13822d8c2865f0b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 12/35] fix: read repositories without a pack directory

---
 src/object/database/packed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..8aa9fa8 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,13 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 53022cf1595d1942f0d04d5382b20598fc116f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 13/35] fix: find objects that were packed right after a
 refresh

---
 src/object/database.rs        |  2 +-
 src/object/database/packed.rs | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..dec80c2 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -72,7 +72,7 @@ impl ObjectDatabase {
 
         // object may have just been packed, try again
         self.packed
-            .read_object(&ShortId::from(id))
+            .refresh_and_read_object(&ShortId::from(id))
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8aa9fa8..66e4f96 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,11 +83,22 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) if self.refresh(false)? => {
+                self.try_read_object(short_id)
+            }
             result => result,
         }
     }
 
+    /// Look for packs that were added since the last refresh, however recent, and read the object from them.
+    pub(in crate::object::database) fn refresh_and_read_object(
+        &self,
+        short_id: &ShortId,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        self.refresh(true)?;
+        self.try_read_object(short_id)
+    }
+
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
         let mut result = None;
         let mut found_id = None;
@@ -123,12 +134,12 @@ impl PackedObjectDatabase {
         }
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if !force && last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From 65cebfa0498aa5f785777b747820f3cac11d5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 14/35] fix: read objects that are not stored in a damaged pack

---
 src/object/database.rs        |  5 +--
 src/object/database/packed.rs | 68 +++++++++++++++++++++++++----------
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index dec80c2..0d3250e 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -60,8 +60,9 @@ impl ObjectDatabase {
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
         match self.packed.read_object(&ShortId::from(id)) {
             Ok(reader) => return Ok(reader),
-            Err(ReadPackedError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
+            // if a pack is damaged, the object may still be found elsewhere. Otherwise the error is
+            // reported below.
+            Err(_) => (),
         };
 
         match self.loose.read_object(&id) {
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 66e4f96..c2226ac 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,9 +83,10 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh(false)? => {
-                self.try_read_object(short_id)
-            }
+            Err(ReadPackedError::NotFound) => match self.refresh(false) {
+                Ok(false) => Err(ReadPackedError::NotFound),
+                refreshed => self.try_read_object_after(short_id, refreshed),
+            },
             result => result,
         }
     }
@@ -95,13 +96,26 @@ impl PackedObjectDatabase {
         &self,
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
-        self.refresh(true)?;
-        self.try_read_object(short_id)
+        let refreshed = self.refresh(true);
+        self.try_read_object_after(short_id, refreshed)
+    }
+
+    /// Only report an error of the refresh if the object is not in any of the packs that could be opened.
+    fn try_read_object_after(
+        &self,
+        short_id: &ShortId,
+        refreshed: Result<bool, ReadPackedError>,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        match (self.try_read_object(short_id), refreshed) {
+            (Err(ReadPackedError::NotFound), Err(err)) => Err(err),
+            (result, _) => result,
+        }
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
-        let mut result = None;
+        let mut found = Vec::new();
         let mut found_id = None;
+        let mut error = None;
         for entry in self.packs.iter() {
             match entry.value().index.find_offset(short_id) {
                 Err(FindIndexOffsetError::Ambiguous) => return Err(ReadPackedError::Ambiguous),
@@ -110,26 +124,33 @@ impl PackedObjectDatabase {
                 }
                 Ok((offset, id)) => {
                     found_id = Some(id);
-                    result = Some((entry.value().clone(), offset))
+                    found.push((entry.value().clone(), offset));
                 }
                 Err(FindIndexOffsetError::NotFound) => continue,
                 Err(FindIndexOffsetError::ReadIndexFile(err)) => {
-                    return Err(ReadPackedError::ReadEntry(ReadEntryError {
+                    error = Some(ReadEntryError {
                         name: entry.name.clone(),
                         kind: ReadEntryErrorKind::ReadIndexFile(err),
-                    }))
+                    })
                 }
             }
         }
 
-        match result {
-            Some((entry, offset)) => match entry.pack.read_object(&entry.index, offset) {
-                Ok(reader) => Ok(reader),
-                Err(err) => Err(ReadPackedError::ReadEntry(ReadEntryError {
-                    name: entry.name.clone(),
-                    kind: ReadEntryErrorKind::ReadPackFile(err),
-                })),
-            },
+        // A damaged pack should not hide a copy of the object in another one
+        for (entry, offset) in found {
+            match entry.pack.read_object(&entry.index, offset) {
+                Ok(reader) => return Ok(reader),
+                Err(err) => {
+                    error = Some(ReadEntryError {
+                        name: entry.name.clone(),
+                        kind: ReadEntryErrorKind::ReadPackFile(err),
+                    })
+                }
+            }
+        }
+
+        match error {
+            Some(err) => Err(ReadPackedError::ReadEntry(err)),
             None => Err(ReadPackedError::NotFound),
         }
     }
@@ -151,15 +172,24 @@ impl PackedObjectDatabase {
             Err(err) => return Err(err.into()),
         };
 
+        let mut error = None;
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                if let Err(err) = self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))
+                {
+                    error = Some(err);
+                }
             }
         }
 
+        if let Some(err) = error {
+            return Err(err.into());
+        }
+
         *last_refresh_guard = Some(Instant::now());
         Ok(true)
     }
-- 
2.43.0


From 03e47f637feb16223c6a9aea50a68fba14c2702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 15/35] fix: do not fail when a pack is replaced during a
 refresh

---
 src/object/database/packed.rs | 40 +++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index c2226ac..529a93f 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -17,6 +17,7 @@ use thiserror::Error;
 
 const PACKS_FOLDER: &str = "objects/pack";
 const MAX_REFRESH_INTERVAL: Duration = Duration::from_secs(2);
+const MAX_SCANS: usize = 3;
 
 #[derive(Debug)]
 pub struct PackedObjectDatabase {
@@ -166,32 +167,59 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
+        // A pack which disappears after it was listed was replaced by another one, which may not have been
+        // listed yet.
+        for _ in 0..MAX_SCANS {
+            if !self.scan()? {
+                break;
+            }
+        }
+
+        *last_refresh_guard = Some(Instant::now());
+        Ok(true)
+    }
+
+    /// Open all packs that are not open yet, returning whether any of them disappeared in the meantime.
+    fn scan(&self) -> Result<bool, ReadPackedError> {
         let entries = match fs_err::read_dir(&self.path) {
             Ok(entries) => entries,
             Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
             Err(err) => return Err(err.into()),
         };
 
+        let mut disappeared = false;
         let mut error = None;
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                if let Err(err) = self
+                match self
                     .packs
                     .entry(path.clone())
                     .or_try_insert_with(move || Entry::open(path).map(Arc::new))
                 {
-                    error = Some(err);
+                    Ok(_) => (),
+                    Err(err) if err.is_not_found() => disappeared = true,
+                    Err(err) => error = Some(err),
                 }
             }
         }
 
-        if let Some(err) = error {
-            return Err(err.into());
+        match error {
+            Some(err) => Err(err.into()),
+            None => Ok(disappeared),
         }
+    }
+}
 
-        *last_refresh_guard = Some(Instant::now());
-        Ok(true)
+impl ReadEntryError {
+    fn is_not_found(&self) -> bool {
+        match &self.kind {
+            ReadEntryErrorKind::ReadIndexFile(ReadIndexFileError::Io(err))
+            | ReadEntryErrorKind::ReadPackFile(ReadPackFileError::Io(err)) => {
+                err.kind() == io::ErrorKind::NotFound
+            }
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From cd18dc59655c4fd64f9db82f4e7bd6f0c24ac587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 16/35] fix: read packed objects in the same format as loose
 objects

---
 src/object/database/loose.rs  |  2 +-
 src/object/database/reader.rs | 28 +++++++++-------------------
 src/object/parse.rs           | 12 ++++++++++++
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..335c8cb 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -58,7 +58,7 @@ impl LooseObjectDatabase {
         path.push(file);
 
         match fs_err::File::open(path) {
-            Ok(file) => Ok(ObjectReader::from_file(None, file)),
+            Ok(file) => Ok(ObjectReader::from_file(file)),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(ReadLooseError::NotFound),
             Err(err) => Err(err.into()),
         }
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index c78506c..8343263 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufReader, Read};
+use std::io::{self, BufReader, Cursor, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -9,33 +9,27 @@ use crate::object::{ObjectData, ObjectHeader};
 use crate::parse;
 
 pub struct ObjectReader {
-    header: Option<ObjectHeader>,
     reader: ReaderKind,
 }
 
 enum ReaderKind {
     File(ZlibDecoder<BufReader<fs_err::File>>),
-    Bytes(bytes::buf::ext::Reader<Bytes>),
+    Bytes(io::Chain<Cursor<Vec<u8>>, bytes::buf::ext::Reader<Bytes>>),
 }
 
 impl ObjectReader {
-    pub(in crate::object) fn from_file(
-        header: impl Into<Option<ObjectHeader>>,
-        file: fs_err::File,
-    ) -> Self {
+    pub(in crate::object) fn from_file(file: fs_err::File) -> Self {
         ObjectReader {
-            header: header.into(),
             reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
-    pub(in crate::object) fn from_bytes(
-        header: impl Into<Option<ObjectHeader>>,
-        bytes: Bytes,
-    ) -> Self {
+    pub(in crate::object) fn from_bytes(header: ObjectHeader, bytes: Bytes) -> Self {
         ObjectReader {
-            header: header.into(),
-            reader: ReaderKind::Bytes(bytes.reader()),
+            reader: ReaderKind::Bytes(Read::chain(
+                Cursor::new(header.to_bytes()),
+                bytes.reader(),
+            )),
         }
     }
 
@@ -46,11 +40,7 @@ impl ObjectReader {
     pub(in crate::object) fn parse(self) -> Result<ObjectData, ParseObjectError> {
         let mut buffer = parse::Buffer::new(self.reader);
 
-        let header = match self.header {
-            Some(header) => header,
-            None => buffer.read_object_header()?,
-        };
-
+        let header = buffer.read_object_header()?;
         buffer.read_object_body(header)
     }
 }
diff --git a/src/object/parse.rs b/src/object/parse.rs
index baf512f..f2c0f2f 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -68,6 +68,18 @@ pub(in crate::object) enum ParseHeaderError {
 
 impl ObjectHeader {
     const MAX_LEN: usize = 28;
+
+    pub(in crate::object) fn to_bytes(&self) -> Vec<u8> {
+        let kind = match self.kind {
+            ObjectKind::Commit => "commit",
+            ObjectKind::Tree => "tree",
+            ObjectKind::Blob => "blob",
+            ObjectKind::Tag => "tag",
+            ObjectKind::OfsDelta => "ofs-delta",
+            ObjectKind::RefDelta => "ref-delta",
+        };
+        format!("{} {}\0", kind, self.len).into_bytes()
+    }
 }
 
 impl<R: Read> Buffer<R> {
-- 
2.43.0


From 5ad08c312bac673b06b083fd0fe0ccfb5322d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 17/35] fix: write loose objects to a temporary file first

---
 src/object/database/loose.rs | 49 ++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 335c8cb..38dd89a 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -78,23 +80,56 @@ impl LooseObjectDatabase {
             _ => (),
         }
 
+        let temp_prefix = path.join("tmp_obj_");
         path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
+        match fs_err::metadata(&path) {
+            Ok(_) => {
                 let _ = set_file_mtime(path, FileTime::now());
                 return Ok(id);
             }
+            Err(err) if err.kind() == io::ErrorKind::NotFound => (),
             Err(err) => return Err(err.into()),
-        };
+        }
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
+        // Write to a temporary file, so that nobody sees a partially written object
+        let (file, temp_path) = create_temp_file(temp_prefix)?;
+        let result = write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
         Ok(id)
     }
 }
 
+fn create_temp_file(prefix: PathBuf) -> io::Result<(fs_err::File, PathBuf)> {
+    static NEXT: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let mut path = prefix.clone().into_os_string();
+        path.push(format!(
+            "{}_{}",
+            process::id(),
+            NEXT.fetch_add(1, Ordering::Relaxed)
+        ));
+        let path = PathBuf::from(path);
+
+        match OpenOptions::new().create_new(true).write(true).open(&path) {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, path.clone()), path)),
+            // left behind by a crash
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?;
+    Ok(())
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From 74a9b8f3191a57d912326cb879f9cf6264f37b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 18/35] fix: parse names that start with a digit or are not
 utf-8

---
 src/object/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,11 +22,11 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 96a263947dbffbf287224fa54afb3fcc78b63bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 19/35] fix: parse every `ref:` line as a symbolic reference

---
 src/reference/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..6a1e7ee 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -8,7 +8,7 @@ use thiserror::Error;
 use crate::object::ParseIdError;
 use crate::reference::{Direct, ReferenceTarget, Symbolic};
 
-const SYMBOLIC_PREFIX: &[u8] = b"ref: ";
+const SYMBOLIC_PREFIX: &[u8] = b"ref:";
 const INVALID_REFERENCE_START: &[u8] = b"\n #";
 
 pub struct Parser<R> {
@@ -72,7 +72,8 @@ impl<R: Read> Parser<R> {
         let mut line = &self.buffer[range];
 
         if line.starts_with(SYMBOLIC_PREFIX) {
-            line = &line[SYMBOLIC_PREFIX.len()..];
+            let name = line[SYMBOLIC_PREFIX.len()..].trim_with(|ch| ch.is_ascii_whitespace());
+            return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(name, None)?));
         }
 
         let peel = match memchr(b' ', line) {
-- 
2.43.0


From 6d2b90b9355316165e95da18332f495757070c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 20/35] fix: ignore what follows the id of a direct reference

---
 src/reference/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 6a1e7ee..8be2d58 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -69,6 +69,7 @@ impl<R: Read> Parser<R> {
             .read_until_valid_reference_line()?
             .ok_or_else(|| ParseError::Empty)?;
 
+        let start = range.start;
         let mut line = &self.buffer[range];
 
         if line.starts_with(SYMBOLIC_PREFIX) {
@@ -87,7 +88,11 @@ impl<R: Read> Parser<R> {
 
         let target = match memchr(b'/', line) {
             Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            None => {
+                // Anything after the id is ignored
+                let id = self.buffer[start..].split(u8::is_ascii_whitespace).next();
+                ReferenceTarget::Direct(Direct::from_bytes(id.unwrap_or_default())?)
+            }
         };
 
         Ok(target)
-- 
2.43.0


From b2cb3b00d37fa3f8a1d90ddf0f7bd5bb425f25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 21/35] fix: limit the depth of symbolic references

---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..a4236b0 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("too many levels of symbolic references")]
+    TooManySymbolicReferences,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..885ace0 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,9 +2,12 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
+/// The number of symbolic references that are followed, the same as git
+const MAX_SYMBOLIC_DEPTH: usize = 5;
+
 #[derive(PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
@@ -31,9 +34,17 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
+        self.peel_limited(repo, MAX_SYMBOLIC_DEPTH)
+    }
+
+    fn peel_limited(&self, repo: &Repository, depth: usize) -> Result<Object, Error> {
         match &self.direct_peel {
             Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+            None if depth == 0 => Err(Error::TooManySymbolicReferences),
+            None => match repo.reference_database().reference(&self.data)?.target() {
+                ReferenceTarget::Symbolic(symbolic) => symbolic.peel_limited(repo, depth - 1),
+                ReferenceTarget::Direct(direct) => direct.object(repo),
+            },
         }
     }
 }
-- 
2.43.0


From a8fa4de0c6dfc36b1f297b34218f343193b14249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 22/35] fix: do not read references outside of the repository

---
 src/reference/database.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..5327efc 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -73,7 +73,12 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        if !ReferenceDatabase::is_inside(name) {
+            return Err(Error::ReferenceNotFound);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
@@ -126,6 +131,14 @@ impl ReferenceDatabase {
         )
     }
 
+    /// Whether a name can only refer to something inside of the database
+    fn is_inside(name: &Path) -> bool {
+        name.components().all(|component| match component {
+            Component::Normal(_) => true,
+            _ => false,
+        })
+    }
+
     #[cfg(windows)]
     fn path_to_bytes(path: &Path) -> Result<&[u8], Error> {
         Ok(path
-- 
2.43.0


From fdfa41b5056463bd349d9092f323fb39b23ddf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 23/35] fix: report references that are directories or below a
 reference as not found

---
 src/reference/database.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 5327efc..1513143 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -79,8 +79,9 @@ impl ReferenceDatabase {
         }
 
         match fs_err::File::open(self.path.join(name)) {
+            Ok(file) if file.metadata()?.is_dir() => Err(Error::ReferenceNotFound),
             Ok(file) => Ok(file),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
+            Err(err) if is_missing(&err) => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
         }
     }
@@ -165,3 +166,11 @@ impl ReferenceDatabase {
         Ok(OsStr::from_bytes(bytes).as_ref())
     }
 }
+
+/// Neither the file exists nor a directory which could hold it
+fn is_missing(err: &io::Error) -> bool {
+    match err.kind() {
+        io::ErrorKind::NotFound | io::ErrorKind::NotADirectory => true,
+        _ => false,
+    }
+}
-- 
2.43.0


From 5ccf8e73277c34eea23412b2af011aff16636f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 24/35] fix: report errors while listing references

---
 src/reference/database.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 1513143..b9aba1d 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -106,11 +106,8 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
+                .flat_map(|f| match f {
+                    Ok(f) => self.get_file_paths_from_dir_entry(&f),
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
@@ -118,6 +115,14 @@ impl ReferenceDatabase {
         }
     }
 
+    fn get_file_paths_from_dir_entry(&self, entry: &fs::DirEntry) -> Vec<Result<PathBuf, Error>> {
+        match entry.file_type().map(|ft| ft.is_dir()) {
+            Ok(true) => self.get_file_paths_from_dir(&entry.path()),
+            Ok(false) => vec![Ok(entry.path())],
+            Err(error) => vec![Err(Error::Io(error))],
+        }
+    }
+
     fn reference_name_from_file(&self, path: &Path) -> Result<Vec<u8>, Error> {
         ReferenceDatabase::path_to_bytes(&pathdiff::diff_paths(path, &self.path).unwrap()).map(
             |bytes| {
-- 
2.43.0


From 647a39f7545cd4dbe3633b9d01b772f1241b680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 25/35] fix: list references when a namespace does not exist

---
 src/reference/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index b9aba1d..d451531 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -111,6 +111,7 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From 864102546764de603a493cfbb0c65118aeac441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 26/35] fix: do not list lock files and hidden files as
 references

---
 src/reference/database.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index d451531..c0cc327 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -15,6 +15,7 @@ const HEADS: &[u8] = b"heads";
 const TAGS: &[u8] = b"tags";
 const REMOTES: &[u8] = b"remotes";
 const HEAD: &[u8] = b"HEAD";
+const LOCK_SUFFIX: &[u8] = b".lock";
 
 #[derive(Debug)]
 pub struct ReferenceDatabase {
@@ -117,7 +118,15 @@ impl ReferenceDatabase {
     }
 
     fn get_file_paths_from_dir_entry(&self, entry: &fs::DirEntry) -> Vec<Result<PathBuf, Error>> {
+        let name = entry.file_name();
+        let name = match ReferenceDatabase::path_to_bytes(name.as_ref()) {
+            Ok(name) => name,
+            Err(error) => return vec![Err(error)],
+        };
+
         match entry.file_type().map(|ft| ft.is_dir()) {
+            // names no reference can have
+            _ if name.starts_with(b".") || name.ends_with(LOCK_SUFFIX) => vec![],
             Ok(true) => self.get_file_paths_from_dir(&entry.path()),
             Ok(false) => vec![Ok(entry.path())],
             Err(error) => vec![Err(Error::Io(error))],
-- 
2.43.0


From 60f28fe631bc6a42e9d755772a08f99e41b6d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 27/35] fix: read packed references

---
 src/reference/database.rs | 90 ++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index c0cc327..6049305 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
@@ -8,6 +9,8 @@ use std::ffi::OsStr;
 #[cfg(unix)]
 use std::os::unix::ffi::OsStrExt;
 
+use memchr::memchr;
+
 use crate::reference::{Error, Reference};
 
 const REFS: &[u8] = b"refs";
@@ -15,6 +18,7 @@ const HEADS: &[u8] = b"heads";
 const TAGS: &[u8] = b"tags";
 const REMOTES: &[u8] = b"remotes";
 const HEAD: &[u8] = b"HEAD";
+const PACKED_REFS: &[u8] = b"packed-refs";
 const LOCK_SUFFIX: &[u8] = b".lock";
 
 #[derive(Debug)]
@@ -43,46 +47,50 @@ impl ReferenceDatabase {
     }
 
     pub fn head_reference_names(&self) -> Result<Vec<Vec<u8>>, Error> {
-        self.reference_names_from_dir(
-            &self
-                .path
-                .join(ReferenceDatabase::bytes_to_path(REFS)?)
-                .join(ReferenceDatabase::bytes_to_path(HEADS)?),
-        )
+        self.reference_names_in_namespace(HEADS)
     }
 
     pub fn tag_reference_names(&self) -> Result<Vec<Vec<u8>>, Error> {
-        self.reference_names_from_dir(
-            &self
-                .path
-                .join(ReferenceDatabase::bytes_to_path(REFS)?)
-                .join(ReferenceDatabase::bytes_to_path(TAGS)?),
-        )
+        self.reference_names_in_namespace(TAGS)
     }
 
     pub fn remote_reference_names(&self) -> Result<Vec<Vec<u8>>, Error> {
-        self.reference_names_from_dir(
-            &self
-                .path
-                .join(ReferenceDatabase::bytes_to_path(REFS)?)
-                .join(ReferenceDatabase::bytes_to_path(REMOTES)?),
-        )
+        self.reference_names_in_namespace(REMOTES)
     }
 
     pub fn read_head(&self) -> Result<impl io::Read, Error> {
         self.read_reference_file(HEAD)
     }
 
-    pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        let name = ReferenceDatabase::bytes_to_path(name)?;
-        if !ReferenceDatabase::is_inside(name) {
+    pub fn read_reference_file(&self, name: &[u8]) -> Result<Box<dyn io::Read>, Error> {
+        let path = ReferenceDatabase::bytes_to_path(name)?;
+        if !ReferenceDatabase::is_inside(path) {
             return Err(Error::ReferenceNotFound);
         }
 
-        match fs_err::File::open(self.path.join(name)) {
-            Ok(file) if file.metadata()?.is_dir() => Err(Error::ReferenceNotFound),
-            Ok(file) => Ok(file),
-            Err(err) if is_missing(&err) => Err(Error::ReferenceNotFound),
+        match fs_err::File::open(self.path.join(path)) {
+            Ok(file) if file.metadata()?.is_dir() => self.read_packed_reference(name),
+            Ok(file) => Ok(Box::new(file)),
+            Err(err) if is_missing(&err) => self.read_packed_reference(name),
+            Err(err) => Err(err.into()),
+        }
+    }
+
+    fn read_packed_reference(&self, name: &[u8]) -> Result<Box<dyn io::Read>, Error> {
+        let packed = self.read_packed_references()?;
+        let id = packed_references(&packed)
+            .find(|(_, packed_name)| *packed_name == name)
+            .map(|(id, _)| id.to_owned());
+        match id {
+            Some(id) => Ok(Box::new(io::Cursor::new(id))),
+            None => Err(Error::ReferenceNotFound),
+        }
+    }
+
+    fn read_packed_references(&self) -> Result<Vec<u8>, Error> {
+        match fs_err::read(self.path.join(ReferenceDatabase::bytes_to_path(PACKED_REFS)?)) {
+            Ok(packed) => Ok(packed),
+            Err(err) if is_missing(&err) => Ok(vec![]),
             Err(err) => Err(err.into()),
         }
     }
@@ -92,6 +100,26 @@ impl ReferenceDatabase {
         Ok(Reference::from_reader(self.read_reference_file(name)?)?)
     }
 
+    fn reference_names_in_namespace(&self, namespace: &[u8]) -> Result<Vec<Vec<u8>>, Error> {
+        let path = self
+            .path
+            .join(ReferenceDatabase::bytes_to_path(REFS)?)
+            .join(ReferenceDatabase::bytes_to_path(namespace)?);
+        let mut names = self.reference_names_from_dir(&path)?;
+
+        // These are read last, so that a reference which is packed meanwhile is not missed
+        let packed = self.read_packed_references()?;
+        let prefix = [REFS, namespace, b""].join(&b'/');
+        let mut seen: HashSet<Vec<u8>> = names.iter().cloned().collect();
+        for (_, name) in packed_references(&packed) {
+            if name.starts_with(&prefix) && seen.insert(name.to_owned()) {
+                names.push(name.to_owned());
+            }
+        }
+
+        Ok(names)
+    }
+
     fn reference_names_from_dir(&self, path: &Path) -> Result<Vec<Vec<u8>>, Error> {
         let files = self.get_all_file_paths_from_dir(&path)?;
         files
@@ -182,6 +210,18 @@ impl ReferenceDatabase {
     }
 }
 
+/// The ids, in hex, and names in the contents of a `packed-refs` file
+fn packed_references(packed: &[u8]) -> impl Iterator<Item = (&[u8], &[u8])> {
+    packed
+        .split(|&ch| ch == b'\n')
+        // the header, and the ids of peeled tags
+        .filter(|line| !line.starts_with(b"#") && !line.starts_with(b"^"))
+        .filter_map(|line| {
+            let pos = memchr(b' ', line)?;
+            Some((&line[..pos], &line[pos + 1..]))
+        })
+}
+
 /// Neither the file exists nor a directory which could hold it
 fn is_missing(err: &io::Error) -> bool {
     match err.kind() {
-- 
2.43.0


From 85a5418de6bcded01b15297465284ec8d8d0fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 28/35] fix: read direct references whose id is followed by a
 tab

---
 src/reference/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 8be2d58..e9f3000 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -77,7 +77,12 @@ impl<R: Read> Parser<R> {
             return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(name, None)?));
         }
 
-        let peel = match memchr(b' ', line) {
+        let peel = match line.iter().position(u8::is_ascii_whitespace) {
+            // Only a space separates an id from a name
+            Some(ch_pos) if line[ch_pos] != b' ' => {
+                line = &line[..ch_pos];
+                None
+            }
             Some(ch_pos) => {
                 let p = line[..ch_pos].trim_end();
                 line = &line[(ch_pos + 1)..];
-- 
2.43.0


From 516fef5f372ddf645eb3cef7224b12b087e8e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 29/35] fix: keep dots at the start of names and emails

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index d37ebdf..8c62216 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,7 +22,7 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-- 
2.43.0


From c9b25b63965cf28abcd8216f3247347d3194b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 30/35] fix: list references while a directory is replaced by
 one

---
 src/reference/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 6049305..ca143e7 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -140,7 +140,7 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
-            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
+            Err(error) if is_missing(&error) => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From f7a5264adbb4b899cbb611998129f778cb132a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 31/35] fix: accept commits without a message

---
 src/object/commit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/commit.rs b/src/object/commit.rs
index 04faa2b..a604887 100644
--- a/src/object/commit.rs
+++ b/src/object/commit.rs
@@ -57,8 +57,8 @@ impl Commit {
             .ok_or(ParseCommitError::Other("missing committer"))?;
 
         let mut encoding = None;
-        // Consume additional commit headers
-        while !parser.consume_bytes(b"\n") {
+        // Consume additional commit headers. There doesn't have to be a message after them
+        while !parser.finished() && !parser.consume_bytes(b"\n") {
             if let Some(range) = parser
                 .parse_prefix_line(b"encoding ")
                 .map_err(|_| ParseCommitError::Other("invalid encoding"))?
-- 
2.43.0


From a7f975919d444052d75ac161b33745012e0971ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 32/35] fix: find the message of tags with additional headers

---
 src/object/tag.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..12fbabc 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,11 +49,15 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
-        let message = if parser.consume_bytes(b"\n") {
-            Some(parser.pos())
-        } else {
-            None
-        };
+        // Consume additional tag headers, like a signature for another hash algorithm
+        let mut message = None;
+        while message.is_none() && !parser.finished() {
+            if parser.consume_bytes(b"\n") {
+                message = Some(parser.pos());
+            } else if parser.consume_until(b'\n').is_none() {
+                break;
+            }
+        }
 
         Ok(Tag {
             data: parser.into_inner(),
-- 
2.43.0


From a814ec8ce9419d026f104d4ce5aea020cc2b5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 33/35] fix: do not take a name without `ref:` for a symbolic
 reference

---
 src/reference/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index e9f3000..c5aeba8 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -92,8 +92,11 @@ impl<R: Read> Parser<R> {
         };
 
         let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => {
+            // A name on its own is no reference, only after `ref:` or an id
+            Some(_) if peel.is_some() => {
+                ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?)
+            }
+            _ => {
                 // Anything after the id is ignored
                 let id = self.buffer[start..].split(u8::is_ascii_whitespace).next();
                 ReferenceTarget::Direct(Direct::from_bytes(id.unwrap_or_default())?)
-- 
2.43.0


From fea2304caa761b7ab51d530a1177ccd6d71f9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 34/35] fix: leave out names that no reference can have

---
 src/reference/database.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index ca143e7..7b0cdac 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -64,7 +64,7 @@ impl ReferenceDatabase {
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<Box<dyn io::Read>, Error> {
         let path = ReferenceDatabase::bytes_to_path(name)?;
-        if !ReferenceDatabase::is_inside(path) {
+        if !ReferenceDatabase::is_inside(path) || !is_valid_name(name) {
             return Err(Error::ReferenceNotFound);
         }
 
@@ -112,7 +112,7 @@ impl ReferenceDatabase {
         let prefix = [REFS, namespace, b""].join(&b'/');
         let mut seen: HashSet<Vec<u8>> = names.iter().cloned().collect();
         for (_, name) in packed_references(&packed) {
-            if name.starts_with(&prefix) && seen.insert(name.to_owned()) {
+            if name.starts_with(&prefix) && is_valid_name(name) && seen.insert(name.to_owned()) {
                 names.push(name.to_owned());
             }
         }
@@ -154,8 +154,9 @@ impl ReferenceDatabase {
 
         match entry.file_type().map(|ft| ft.is_dir()) {
             // names no reference can have
-            _ if name.starts_with(b".") || name.ends_with(LOCK_SUFFIX) => vec![],
+            _ if !is_valid_component(name) => vec![],
             Ok(true) => self.get_file_paths_from_dir(&entry.path()),
+            Ok(false) if name.ends_with(b".") => vec![],
             Ok(false) => vec![Ok(entry.path())],
             Err(error) => vec![Err(Error::Io(error))],
         }
@@ -222,6 +223,21 @@ fn packed_references(packed: &[u8]) -> impl Iterator<Item = (&[u8], &[u8])> {
         })
 }
 
+/// Whether git accepts this as the name of a reference, see `git-check-ref-format(1)`
+fn is_valid_name(name: &[u8]) -> bool {
+    name != b"@" && !name.ends_with(b".") && name.split(|&ch| ch == b'/').all(is_valid_component)
+}
+
+fn is_valid_component(name: &[u8]) -> bool {
+    !name.is_empty()
+        && !name.starts_with(b".")
+        && !name.ends_with(LOCK_SUFFIX)
+        && !name.windows(2).any(|chs| chs == b".." || chs == b"@{")
+        && !name
+            .iter()
+            .any(|ch| ch.is_ascii_control() || b" ~^:?*[\\".contains(ch))
+}
+
 /// Neither the file exists nor a directory which could hold it
 fn is_missing(err: &io::Error) -> bool {
     match err.kind() {
-- 
2.43.0


From 101a7135fffd94aea2a04f862fe7a3dda5be37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:49 +0000
Subject: [PATCH 35/35] fix: report names that are too long for a file as not
 found

---
 src/reference/database.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 7b0cdac..c1c10c5 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -238,10 +238,12 @@ fn is_valid_component(name: &[u8]) -> bool {
             .any(|ch| ch.is_ascii_control() || b" ~^:?*[\\".contains(ch))
 }
 
-/// Neither the file exists nor a directory which could hold it
+/// Neither the file exists nor a directory which could hold it, or no file can have this name
 fn is_missing(err: &io::Error) -> bool {
     match err.kind() {
-        io::ErrorKind::NotFound | io::ErrorKind::NotADirectory => true,
+        io::ErrorKind::NotFound
+        | io::ErrorKind::NotADirectory
+        | io::ErrorKind::InvalidFilename => true,
         _ => false,
     }
 }
-- 
2.43.0

