From 52ad8d25389f30a716c1721942f80f4c1f2d5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 01/23] fix: test the top bit of a delta opcode to recognise
 copy commands

The mask 0b1000_000 is 0x40, so copies without a third size byte were
treated as inserts and inserts of 64 bytes or more as copies.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..266e3ca 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From 8c6d99effed4761753e315c586f5c0ff3039b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 02/23] fix: append to the delta result instead of overwriting
 it

`copy_from_slice` panics unless both slices have the same length.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 266e3ca..5e03914 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -61,7 +61,7 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From 44638a53daed0f3862ef026633100209c6012dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 03/23] fix: keep unread data when clearing a parse buffer

The delta header is read ahead, so dropping the whole buffer after the
first command lost the commands that followed it.
---
 src/parse/buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..ff096e9 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -3,7 +3,7 @@ use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use flate2::read::ZlibDecoder;
 use memchr::memchr;
 
@@ -48,10 +48,10 @@ impl<R: Read> Buffer<R> {
         mem::take(&mut self.buffer).freeze().slice(range)
     }
 
-    /// Clear the internal buffer
+    /// Discard the bytes which have already been consumed from the internal buffer
     pub fn clear_buffer(&mut self) {
+        self.buffer.advance(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From 2beeba69bfdbd8776224f8f5402fdeb7449b5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 04/23] fix: decompress packed objects exactly once

The length in a pack entry header is the size of the decompressed data, but
it was used as the number of compressed bytes, so small or incompressible
objects and most deltas could not be read. Bases were kept compressed, so
deltas were applied to the wrong bytes and their result was decompressed
again. The length of the decompressed data is now checked as well.
---
 src/object/database/packed/pack.rs | 10 +++++++---
 src/object/database/reader.rs      | 28 +++++++---------------------
 src/parse/buffer.rs                | 24 ++++++------------------
 3 files changed, 20 insertions(+), 42 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..51ea7aa 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,7 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let base = buffer.decompress().read_to_end(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -203,7 +202,12 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let data = buffer.decompress().read_to_end(delta.header.len)?;
+        let result = apply_delta(
+            delta.header.kind,
+            &base,
+            &mut parse::Buffer::new(data.as_ref()),
+        )?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..a871e2c 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,13 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    // A file containing a zlib stream
+    File(ZlibDecoder<BufReader<fs_err::File>>),
+    // The object data, which is already decompressed
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +27,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +37,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +65,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index ff096e9..9113d68 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -40,14 +39,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Discard the bytes which have already been consumed from the internal buffer
     pub fn clear_buffer(&mut self) {
         self.buffer.advance(self.pos);
@@ -62,15 +53,12 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
-        debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
-
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+    /// Return a buffer that decompresses the zlib stream starting at the current position.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress<'a>(&'a mut self) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+        let buffered = &self.buffer[self.pos..];
+        Buffer::new(ZlibDecoder::new(buffered.chain(self.reader.by_ref())))
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From 8fc7c23ee9bcc087b3eed377cf6d7a146f795c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 05/23] fix: apply delta chains starting from the base object

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 51ea7aa..91affa0 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,8 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        // The chain starts at the requested object and ends just above the base
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From 8d7f29a399f5040e0d35b1a4f98d9cd08522286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 06/23] fix: give an object stored as a delta the kind of its
 base

---
 src/object/database/packed/pack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 91affa0..c1d7682 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -129,7 +129,7 @@ impl PackFile {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         // The chain starts at the requested object and ends just above the base
         for entry in chain.into_iter().rev() {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -196,6 +196,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -205,7 +206,7 @@ impl PackFile {
 
         let data = buffer.decompress().read_to_end(delta.header.len)?;
         let result = apply_delta(
-            delta.header.kind,
+            kind,
             &base,
             &mut parse::Buffer::new(data.as_ref()),
         )?;
-- 
2.43.0


From 03ce08af9dfc5292189c579b758af465b5a2dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 07/23] fix: decode multi-byte delta base offsets

Each continuation byte of the offset encoding adds one to the value, see
"offset encoding" in gitformat-pack(5).
---
 src/object/database/packed/pack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index c1d7682..4d9e4cd 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -284,11 +284,14 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
-        let mut offset: u64 = 0;
+        let mut offset = u64::from(parser.parse_byte()? & 0b0111_1111);
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            // An offset that doesn't fit is larger than the offset of any object in the pack.
+            offset = offset
+                .saturating_add(1)
+                .saturating_mul(1 << 7)
+                .saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From e55d4a88287e8ffd1be944c451b06ae4afa24902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 08/23] fix: detect delta loops through more than one object

Two deltas which refer to each other by id were followed forever.
---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 4d9e4cd..337baac 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -187,7 +187,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // Each object can appear in the chain once, and the base isn't part of it.
+            if chain.len() >= self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From c07f2cfd7f2c2c398000f20e474394e7f32a603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 09/23] fix: reject packed lengths that do not fit instead of
 dropping their high bits

---
 src/object/database/packed/delta.rs | 9 ++++++---
 src/object/database/packed/pack.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5e03914..f90073e 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -116,9 +116,12 @@ where
         let mut shift = 0;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
-                .checked_shl(shift)
-                .ok_or(DeltaError::InvalidHeader)?;
+            let bits = usize::from(byte & 0b0111_1111);
+            let shifted = bits.checked_shl(shift).ok_or(DeltaError::InvalidHeader)?;
+            if shifted >> shift != bits {
+                return Err(DeltaError::InvalidHeader);
+            }
+            len |= shifted;
             shift += 7;
         }
 
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 337baac..90e4074 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -265,9 +265,14 @@ impl<R: Read> parse::Buffer<R> {
         let mut shift = 4;
         while parser.remaining() != 0 {
             byte = parser.parse_byte()?;
-            len |= usize::from(byte & 0b0111_1111)
+            let bits = usize::from(byte & 0b0111_1111);
+            let shifted = bits
                 .checked_shl(shift)
                 .ok_or(ReadPackFileError::Other("invalid object size"))?;
+            if shifted >> shift != bits {
+                return Err(ReadPackFileError::Other("invalid object size"));
+            }
+            len |= shifted;
             shift += 7;
         }
 
-- 
2.43.0


From dee6a6d4cc38c4e2e207d1464b21f8f16c5f5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 10/23] fix: reject a pack index with a partial large offset

---
 src/object/database/packed/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..3dd1427 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -135,6 +135,13 @@ impl IndexFile {
             ));
         }
 
+        // The table of large offsets holds a whole number of entries
+        if (parser.remaining() - min_size) % size_of::<U64<NetworkEndian>>() != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
+
         Ok(IndexFile {
             data: parser.into_inner(),
             count,
-- 
2.43.0


From f4a10112702b8dd68efa2e27ef3ef0420689a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 11/23] fix: do not allocate memory for a declared length
 before reading the data

---
 src/object/database/packed/delta.rs | 2 +-
 src/parse/buffer.rs                 | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index f90073e..91917cb 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -40,7 +40,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::new();
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 9113d68..0a0245e 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -9,6 +9,10 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The most bytes to make room for in the buffer before attempting to read them. The number
+/// of bytes requested may come from an invalid object, and be much larger than the input.
+const MAX_FILL_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -170,7 +174,8 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-            self.buffer.resize(end, b'\0');
+            let fill_len = usize::min(end - old_len, MAX_FILL_LEN);
+            self.buffer.resize(old_len + fill_len, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
                 Ok(read) => {
-- 
2.43.0


From 27189634654b43efcf7a201cc556b5155c5d5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 12/23] fix: reject an object body longer than its declared
 length

---
 src/parse/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 0a0245e..64023c0 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -153,6 +153,11 @@ impl<R: Read> Buffer<R> {
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
 
+        // Data following the requested range may already have been read
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
+
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
         // ahead of time, we can avoid this.
-- 
2.43.0


From 0371f45fa00688e97dd568b6b1251a01a2bae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 13/23] fix: keep digits and non-utf8 bytes in signature names

---
 src/object/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,11 +22,11 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 0895108620398c1111fab9d7c106b87d9e15546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 14/23] fix: return an error for a loop of symbolic references

---
 src/reference.rs          | 11 ++++++++++-
 src/reference/symbolic.rs | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..35ccf9e 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -42,6 +42,8 @@ pub enum Error {
         #[from]
         object::ReadObjectError,
     ),
+    #[error("too many levels of symbolic references")]
+    SymbolicReferenceTooDeep,
     #[error("the reference is invalid")]
     InvalidReference(
         #[source]
@@ -56,10 +58,17 @@ pub enum Error {
     ),
 }
 
+/// The maximum number of references to follow when peeling a symbolic reference.
+const MAX_SYMBOLIC_DEPTH: usize = 5;
+
 impl ReferenceTarget {
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
+        self.peel_to_depth(repo, MAX_SYMBOLIC_DEPTH)
+    }
+
+    fn peel_to_depth(&self, repo: &Repository, depth: usize) -> Result<Object, Error> {
         match self {
-            ReferenceTarget::Symbolic(s) => s.peel(repo),
+            ReferenceTarget::Symbolic(s) => s.peel_to_depth(repo, depth),
             ReferenceTarget::Direct(d) => d.object(repo),
         }
     }
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..417950b 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,7 +2,7 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, MAX_SYMBOLIC_DEPTH};
 use crate::repository::Repository;
 
 #[derive(PartialEq)]
@@ -31,9 +31,22 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
+        self.peel_to_depth(repo, MAX_SYMBOLIC_DEPTH)
+    }
+
+    pub(in crate::reference) fn peel_to_depth(
+        &self,
+        repo: &Repository,
+        depth: usize,
+    ) -> Result<Object, Error> {
         match &self.direct_peel {
             Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+            None if depth == 0 => Err(Error::SymbolicReferenceTooDeep),
+            None => repo
+                .reference_database()
+                .reference(&self.data)?
+                .target()
+                .peel_to_depth(repo, depth - 1),
         }
     }
 }
-- 
2.43.0


From b579b10fef4fa8f82a06c84d7648760635907825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 15/23] fix: list references in a repository with a missing
 refs folder

---
 src/reference/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..9f5d4dc 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -108,6 +108,8 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            // Nothing has been stored in this directory yet
+            Err(error) if error.kind() == io::ErrorKind::NotFound => Vec::new(),
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From b9341497acdc237092584d4d4c2abae7766fdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 16/23] fix: reject reference names which are outside of the
 git directory

---
 src/reference.rs          |  2 ++
 src/reference/database.rs | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 35ccf9e..f6ff402 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("reference name is not a relative path inside the git directory")]
+    ReferenceNameInvalidPath,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/database.rs b/src/reference/database.rs
index 9f5d4dc..27a9f3a 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -73,7 +73,17 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        // Names are read from files in the repository, so they can't be trusted not to refer to
+        // a file outside of it.
+        let is_relative = name
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)));
+        if !is_relative || name.as_os_str().is_empty() {
+            return Err(Error::ReferenceNameInvalidPath);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From c80ac72077d251172b5cd1d4a9f84863c5b7329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 17/23] fix: read loose objects in a repository with no pack
 folder

---
 src/object/database/packed.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..9f09fda 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,14 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // The repository doesn't have any packs yet
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From a3585565bdab4185b50d6c855d2824710df222a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 18/23] fix: always read `ref:` files as symbolic references

---
 src/reference/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..b983235 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -72,7 +72,8 @@ impl<R: Read> Parser<R> {
         let mut line = &self.buffer[range];
 
         if line.starts_with(SYMBOLIC_PREFIX) {
-            line = &line[SYMBOLIC_PREFIX.len()..];
+            let name = line[SYMBOLIC_PREFIX.len()..].trim_end();
+            return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(name, None)?));
         }
 
         let peel = match memchr(b' ', line) {
-- 
2.43.0


From 119ef96739e55a24a9f20d7fb064cb95c428d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 19/23] fix: do not leave a partial object behind when writing
 it fails

---
 src/object/database/loose.rs | 55 +++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..c98d034 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -72,29 +74,54 @@ impl LooseObjectDatabase {
         let hex = id.to_hex();
         let (dir, file) = object_path_parts(&hex);
 
-        let mut path = self.path.join(dir);
+        let path = self.path.join(dir);
         match fs_err::create_dir(&path) {
             Err(err) if err.kind() != io::ErrorKind::AlreadyExists => return Err(err.into()),
             _ => (),
         }
 
-        path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
-                let _ = set_file_mtime(path, FileTime::now());
-                return Ok(id);
-            }
-            Err(err) => return Err(err.into()),
-        };
-
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
+        let object_path = path.join(file);
+        if object_path.exists() {
+            let _ = set_file_mtime(object_path, FileTime::now());
+            return Ok(id);
+        }
+
+        // The object is written to a temporary file first and only gets its name once it is
+        // complete, so that a failed write can't leave a partial object behind.
+        let (temp_file, temp_path) = create_temp_file(&path)?;
+        let result = write_compressed(temp_file, bytes)
+            .and_then(|_| fs_err::rename(&temp_path, &object_path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
+
         Ok(id)
     }
 }
 
+/// Create a new file with a unique name, which isn't the name of an object.
+fn create_temp_file(dir: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let count = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let path = dir.join(format!("tmp_obj_{}_{}", process::id(), count));
+        match OpenOptions::new().create_new(true).write(true).open(&path) {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, path.clone()), path)),
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?;
+    Ok(())
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From d720973cead7bf02c0d714ea35310cdb319eaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 20/23] verif: entry points for private functions, behind
 cfg(rusty_git_verif)

---
 src/object.rs                       |  3 ++
 src/object/database.rs              |  3 ++
 src/object/database/packed.rs       |  3 ++
 src/object/database/packed/pack.rs  | 14 ++++++++
 src/object/database/packed/verif.rs | 53 +++++++++++++++++++++++++++++
 src/object/verif.rs                 | 21 ++++++++++++
 6 files changed, 97 insertions(+)
 create mode 100644 src/object/database/packed/verif.rs
 create mode 100644 src/object/verif.rs

diff --git a/src/object.rs b/src/object.rs
index c22b1fe..6b6f8f1 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -6,6 +6,9 @@ mod signature;
 mod tag;
 mod tree;
 
+#[cfg(rusty_git_verif)]
+pub mod verif;
+
 pub use self::blob::Blob;
 pub use self::commit::Commit;
 pub use self::database::ObjectDatabase;
diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..c45c2b9 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -2,6 +2,9 @@ mod loose;
 mod packed;
 mod reader;
 
+#[cfg(rusty_git_verif)]
+pub(in crate::object) use self::packed::verif as packed_verif;
+
 pub use self::reader::ObjectReader;
 
 use std::path::Path;
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 9f09fda..97c7672 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -2,6 +2,9 @@ mod delta;
 mod index;
 mod pack;
 
+#[cfg(rusty_git_verif)]
+pub(in crate::object) mod verif;
+
 use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 90e4074..e9e7442 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -308,6 +308,20 @@ impl<R: Read> parse::Buffer<R> {
     }
 }
 
+#[cfg(rusty_git_verif)]
+pub(in crate::object::database::packed) mod verif {
+    use super::*;
+
+    pub fn entry_header<R: Read>(buffer: &mut parse::Buffer<R>) -> Option<(u8, usize)> {
+        let header = buffer.read_pack_object_header().ok()?;
+        Some((header.kind as u8, header.len))
+    }
+
+    pub fn delta_offset<R: Read>(buffer: &mut parse::Buffer<R>) -> Option<u64> {
+        buffer.read_delta_offset().ok()
+    }
+}
+
 impl fmt::Debug for PackFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("PackFile")
diff --git a/src/object/database/packed/verif.rs b/src/object/database/packed/verif.rs
new file mode 100644
index 0000000..21acdd6
--- /dev/null
+++ b/src/object/database/packed/verif.rs
@@ -0,0 +1,53 @@
+//! Entry points used to exercise private parts of the packed object database from outside of
+//! this crate. Only compiled with `--cfg rusty_git_verif`.
+
+use std::io::Read;
+use std::path::PathBuf;
+
+use super::delta::{apply_delta, DeltaError};
+use super::index::{FindIndexOffsetError, IndexFile};
+use super::pack::verif as pack;
+use crate::object::{Id, ObjectKind, ShortId};
+use crate::parse;
+
+/// The number of entries in an index file, and the id of its pack.
+pub fn index_open(path: PathBuf) -> Result<(u32, Id), &'static str> {
+    match IndexFile::open(path) {
+        Ok(index) => Ok((index.count(), index.id())),
+        Err(_) => Err("invalid"),
+    }
+}
+
+/// Look up an id in an index file.
+pub fn index_find(path: PathBuf, id: &ShortId) -> Result<(u64, Id), &'static str> {
+    let index = IndexFile::open(path).map_err(|_| "invalid")?;
+    index.find_offset(id).map_err(|err| match err {
+        FindIndexOffsetError::NotFound => "notfound",
+        FindIndexOffsetError::Ambiguous => "ambiguous",
+        FindIndexOffsetError::ReadIndexFile(_) => "invalid",
+    })
+}
+
+/// Apply a delta to the data of a base object.
+pub fn delta<R: Read>(base: &[u8], delta: R) -> Result<Vec<u8>, &'static str> {
+    match apply_delta(ObjectKind::Blob, base, &mut parse::Buffer::new(delta)) {
+        Ok((header, data)) if header.len != data.len() => Err("header does not match data"),
+        Ok((_, data)) => Ok(data.to_vec()),
+        Err(DeltaError::Parse(parse::Error::Io(_))) => Err("io"),
+        Err(_) => Err("invalid"),
+    }
+}
+
+/// The kind and length in the header of a pack entry, and the position after it.
+pub fn entry_header<R: Read>(reader: R) -> Option<(u8, usize, usize)> {
+    let mut buffer = parse::Buffer::new(reader);
+    let (kind, len) = pack::entry_header(&mut buffer)?;
+    Some((kind, len, buffer.pos()))
+}
+
+/// The distance to the base of a delta, and the position after it.
+pub fn delta_offset<R: Read>(reader: R) -> Option<(u64, usize)> {
+    let mut buffer = parse::Buffer::new(reader);
+    let offset = pack::delta_offset(&mut buffer)?;
+    Some((offset, buffer.pos()))
+}
diff --git a/src/object/verif.rs b/src/object/verif.rs
new file mode 100644
index 0000000..e2f8735
--- /dev/null
+++ b/src/object/verif.rs
@@ -0,0 +1,21 @@
+//! Entry points used to exercise private parts of the object parser from outside of this crate.
+//! Only compiled with `--cfg rusty_git_verif`.
+
+use std::io::Read;
+
+pub use super::database::packed_verif::*;
+use super::{ObjectData, ParseObjectError};
+use crate::parse::Buffer;
+
+/// Parse an object, including its header, from a reader.
+pub fn parse_object<R: Read>(reader: R) -> Result<ObjectData, &'static str> {
+    let mut buffer = Buffer::new(reader);
+    let result = buffer
+        .read_object_header()
+        .map_err(ParseObjectError::from)
+        .and_then(|header| buffer.read_object_body(header));
+    result.map_err(|err| match err {
+        ParseObjectError::Io(_) => "io",
+        _ => "invalid",
+    })
+}
-- 
2.43.0


From 2a5b4ad824a5e569dac8c775c89a9041ff41e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 21/23] fix: list references with a backslash in their name by
 that name

---
 src/reference/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 27a9f3a..7bbf8af 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -130,7 +130,8 @@ impl ReferenceDatabase {
                 bytes
                     .iter()
                     .map(|b| match b {
-                        b'\\' => b'/',
+                        // Elsewhere a backslash is part of the name
+                        b'\\' if cfg!(windows) => b'/',
                         _ => *b,
                     })
                     .collect()
-- 
2.43.0


From e8df4a7120efd1a77cf01df13c9b64dc6601f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 22/23] fix: report folder entries that cannot be read when
 listing references

---
 src/reference/database.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 7bbf8af..484499e 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -110,13 +110,13 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
-                    Err(error) => vec![Err(Error::Io(error))],
-                })
+                .flat_map(
+                    |f| match f.and_then(|f| Ok((f.file_type()?.is_dir(), f.path()))) {
+                        Ok((true, path)) => self.get_file_paths_from_dir(&path),
+                        Ok((false, path)) => vec![Ok(path)],
+                        Err(error) => vec![Err(Error::Io(error))],
+                    },
+                )
                 .collect(),
             // Nothing has been stored in this directory yet
             Err(error) if error.kind() == io::ErrorKind::NotFound => Vec::new(),
-- 
2.43.0


From 1567dcf9fa4f429936e0bc9df3e3aacfe8fb0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 23/23] fix: list references in deeply nested folders without
 recursion

---
 src/reference/database.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 484499e..559122f 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,6 +1,5 @@
 use std::fs::{self};
 use std::io;
-use std::iter::FromIterator;
 use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
@@ -104,24 +103,26 @@ impl ReferenceDatabase {
     }
 
     fn get_all_file_paths_from_dir(&self, path: &Path) -> Result<Vec<PathBuf>, Error> {
-        Result::<Vec<PathBuf>, Error>::from_iter(self.get_file_paths_from_dir(&path))
-    }
-
-    fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
-        match fs::read_dir(path) {
-            Ok(files) => files
-                .flat_map(
-                    |f| match f.and_then(|f| Ok((f.file_type()?.is_dir(), f.path()))) {
-                        Ok((true, path)) => self.get_file_paths_from_dir(&path),
-                        Ok((false, path)) => vec![Ok(path)],
-                        Err(error) => vec![Err(Error::Io(error))],
-                    },
-                )
-                .collect(),
-            // Nothing has been stored in this directory yet
-            Err(error) if error.kind() == io::ErrorKind::NotFound => Vec::new(),
-            Err(error) => vec![Err(Error::Io(error))],
+        // The folders can be nested too deeply to visit them recursively.
+        let mut dirs = vec![path.to_path_buf()];
+        let mut files = Vec::new();
+        while let Some(dir) = dirs.pop() {
+            let entries = match fs::read_dir(&dir) {
+                Ok(entries) => entries,
+                // Nothing has been stored in this directory yet
+                Err(error) if error.kind() == io::ErrorKind::NotFound => continue,
+                Err(error) => return Err(Error::Io(error)),
+            };
+            for entry in entries {
+                let entry = entry?;
+                if entry.file_type()?.is_dir() {
+                    dirs.push(entry.path());
+                } else {
+                    files.push(entry.path());
+                }
+            }
         }
+        Ok(files)
     }
 
     fn reference_name_from_file(&self, path: &Path) -> Result<Vec<u8>, Error> {
-- 
2.43.0

