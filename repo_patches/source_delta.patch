From 6d7fb31d5e780f687954125f4aad06254198d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:29 +0000
Subject: [PATCH 01/26] fix: bound RAM read buffers by capacity in read_from

BytesMut::remaining_mut is practically unlimited, so the fill loop read
the entire source into one growing buffer before max_body_ram and
max_body were applied. Use the remaining capacity instead.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..b81e8e2 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -649,7 +649,7 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From 3ad17c94015d5e3e3f3b437802caa49779ba525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:29 +0000
Subject: [PATCH 02/26] fix: count bytes already written against max_body

After spilling to the file-system, read_to_body_fs counted only the
remaining bytes read, so bodies longer than max_body were accepted.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index b81e8e2..a729311 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -740,7 +740,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From c35f1a50228f01866a24c84672d6fe0167ccac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:50 +0000
Subject: [PATCH 03/26] fix: honor the image length of a longer file

Writing out or memory mapping an image created by from_file used the
whole file, where only the given length is the body.
---
 body-image/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index a729311..c71691b 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,14 +53,15 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
 
 #[cfg(feature = "mmap")]
 use {
-    memmap::Mmap,
+    std::cmp,
+    memmap::{Mmap, MmapOptions},
     olio::mem::{MemAdvice, MemHandle},
     _mem_handle_ext::MemHandleExt,
 };
@@ -522,7 +523,8 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                let len = cmp::min(self.len, file.metadata()?.len());
+                unsafe { MmapOptions::new().len(len as usize).map(&file) }?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +677,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,8 +700,8 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From d17f48841c712a93705045f80f5a207d95fbe52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:52 +0000
Subject: [PATCH 04/26] fix: discard partially written bytes on sink write
 failure

A failing write to a file-system sink could leave part of the buffer in
the file, which then became part of the body as of the next write.
---
 body-image/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index c71691b..4b961c5 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -283,7 +283,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    write_all_at_end(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -306,7 +306,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    write_all_at_end(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -712,6 +712,20 @@ impl BodyImage {
     }
 }
 
+// Write all bytes to the end of file, where its current length is `len`. On
+// failure, return to that position, so that any partially written bytes don't
+// become part of the body.
+fn write_all_at_end(f: &mut File, len: u64, buf: &[u8])
+    -> Result<(), io::Error>
+{
+    f.write_all(buf).map_err(|e| {
+        match f.seek(SeekFrom::Start(len)) {
+            Ok(_) => e,
+            Err(se) => se
+        }
+    })
+}
+
 // Create a new `FsRead` instance based on an existing `File`.
 fn image_from_file(file: File, length: u64) -> BodyImage {
     if length > 0 {
-- 
2.43.0


From 516e75b67307d0baf6e7b8d60dd93ba58bc09c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:09 +0000
Subject: [PATCH 05/26] fix: read mapped file slices where memory advice is
 refused

The OS refuses advice for a memory map not starting on a page boundary,
as is typical for a slice of a file, and so writing or streaming such a
mapped body failed.
---
 body-image/src/_mem_handle_ext.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..acadaea 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,10 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is only a hint, and isn't possible in all cases. In
+        // particular, the OS may refuse it for a mapped file slice, which
+        // doesn't start on a page boundary.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +31,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        let _ = self.advise(MemAdvice::Normal);
         res
     }
 }
-- 
2.43.0


From c659cc934ea5f791a735f6b1663b6a54355a7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:00 +0000
Subject: [PATCH 06/26] fix: read header blocks with more than 128 headers

The reader parsed each header block into a fixed array of 128 entries.
A record with more headers than that could be written but not read back.
---
 barc/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..88e8c70 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1040,16 +1040,16 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // allow for the number of lines (at least the number of headers) in buf.
+    let lines = buf.iter().filter(|&&b| b == b'\n').count();
+    let mut headbuf = vec![httparse::EMPTY_HEADER; lines];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-            let mut hmap = http::HeaderMap::with_capacity(heads.len());
+            let mut hmap = http::HeaderMap::with_capacity(
+                cmp::min(heads.len(), 128)
+            );
             assert_eq!(size, buf.len());
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
-- 
2.43.0


From 7f3822bc537d29c5a7c0880338adf078c58f1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:26 +0000
Subject: [PATCH 07/26] fix: report malformed record heads as errors

A damaged record head could make the reader panic: header block or body
lengths below the size of their terminator, a record length less than
its parts, a header block ending early, or more header names than a
header map can hold. Each is now returned as an error.
---
 barc/src/lib.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 88e8c70..b30387d 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -593,6 +593,10 @@ impl Default for RecordType {
 
 const CRLF: &[u8] = b"\r\n";
 
+// Number of distinct names at which a further append to a `http::HeaderMap`
+// would panic.
+const MAX_HEADER_NAMES: usize = 24_576;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -867,7 +871,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1016,7 +1022,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1050,12 +1058,21 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
             let mut hmap = http::HeaderMap::with_capacity(
                 cmp::min(heads.len(), 128)
             );
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block has an early terminator".into()
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
                 let value = HeaderValue::from_bytes(h.value)
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                if hmap.keys_len() >= MAX_HEADER_NAMES {
+                    return Err(BarcError::InvalidHeader(
+                        httparse::Error::TooManyHeaders.into()
+                    ));
+                }
                 hmap.append(name, value);
             }
             Ok(hmap)
@@ -1078,7 +1095,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1148,7 +1167,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From e437e5d5495854ed9afcb861a0c84513117332f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:28 +0000
Subject: [PATCH 08/26] fix: fail reading records with bodies cut short

A request or response body deferred to a slice of the file was not
checked against the end of the file, and a compressed request body
buffered in a temporary file was accepted when its data ended early.
---
 barc/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index b30387d..80b8e57 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1147,7 +1147,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1177,6 +1177,10 @@ fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
 
     let rslice = rp.subslice(offset, offset + len - 2); // - CRLF
 
+    // Check that the file extends through the terminating CRLF.
+    let mut crlf = [0u8; 2];
+    rp.subslice(offset + len - 2, offset + len).read_exact(&mut crlf)?;
+
     // Safety: There is only appending writes, so within reason, the slice
     // (and any later memory mapping) should be safe from concurrent
     // modification and UB. The `allow(unused_unsafe)` is because the method
-- 
2.43.0


From 8ef4a5ca5aed679c33406926f980b453943da7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:10 +0000
Subject: [PATCH 09/26] fix: discard incomplete record on write failure

A failed record write left its reserved head and partial payload at the
end of the file. As readers stop at a reserved head, every record
written afterward was never read.
---
 barc/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 80b8e57..be05839 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -664,6 +664,26 @@ impl<'a> BarcWriter<'a> {
         -> Result<u64, BarcError>
     {
         // BarcFile::writer() guarantees Some(File)
+        let end = self.guard.as_mut().unwrap().seek(SeekFrom::End(0))?;
+
+        self.append(rec, strategy).map_err(|e| {
+            // Discard an incomplete record, as this would otherwise hide any
+            // subsequently written records from readers.
+            if let Err(te) = self.guard.as_mut().unwrap().set_len(end) {
+                warn!("Unable to discard incomplete record: {}", te);
+            }
+            e
+        })
+    }
+
+    // Append a new record, returning its offset. On error, an incomplete
+    // record may remain at the end of the file.
+    fn append(
+        &mut self,
+        rec: &dyn MetaRecorded,
+        strategy: &dyn CompressStrategy)
+        -> Result<u64, BarcError>
+    {
         let file: &mut File = self.guard.as_mut().unwrap();
 
         // Write initial head as reserved place holder
-- 
2.43.0


From 349ec7faf3f9814e8b96b0ea70f086daba14da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:32 +0000
Subject: [PATCH 10/26] fix: report errors finishing a brotli compressed record

The last block of brotli output was only written when its encoder was
dropped, with any write error ignored. The record was then marked as
complete with its payload cut short.
---
 barc/src/compress.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..73a930f 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,32 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<KeepError<'a>>>)
+}
+
+// Writer to the `File` that retains the kind of any error. This is needed because
+// `brotli::CompressorWriter` offers no means to finish its output which
+// doesn't ignore errors.
+#[cfg(feature = "brotli")]
+struct KeepError<'a> {
+    file: &'a File,
+    error: Option<io::ErrorKind>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for KeepError<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        self.file.write(buf).map_err(|e| {
+            if e.kind() != io::ErrorKind::Interrupted {
+                self.error = Some(e.kind());
+            }
+            e
+        })
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +429,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                KeepError { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -434,6 +459,9 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                if let Some(kind) = bcw.into_inner().error {
+                    return Err(io::Error::from(kind).into());
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 1aa235798741b906f09d9fdf411ea917b80e12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:34 +0000
Subject: [PATCH 11/26] fix: convert every encoding and version written to a
 record

A dialog with the identity or compress encoding decoded, or of HTTP/3
version, was written as a record that could not be converted back.
---
 barc/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index be05839..0b8fd93 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -517,7 +518,9 @@ impl TryFrom<Record> for Dialog {
                 for enc in dcds.split(',') {
                     let enc = enc.trim();
                     encodes.push(match enc {
+                        "identity" => Encoding::Identity,
                         "chunked" => Encoding::Chunked,
+                        "compress" => Encoding::Compress,
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
-- 
2.43.0


From 2f36c07a1436f691d7c76ae9ac7c2df0dd39dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:58 +0000
Subject: [PATCH 12/26] fix: stream mapped file slices where memory advice is
 refused

The OS refuses advice for a memory map not starting on a page boundary,
and so streaming such a mapped body in unified buffers failed.
---
 body-image-futio/src/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..26f6c9f 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -64,7 +64,11 @@ impl OutputBuf for UniBodyBuf {
     #[cfg(feature = "mmap")]
     fn from_mmap(mmap: MemHandle<Mmap>) -> Result<Self, io::Error> {
         let buf = MemMapBuf::new(mmap);
-        buf.advise_sequential()?;
+        // Only a hint, which the OS may refuse, e.g. for a mapped file slice
+        // which doesn't start on a page boundary.
+        if let Err(e) = buf.advise_sequential() {
+            debug!("MemMap advise sequential refused: {}", e);
+        }
         let _b = buf.chunk()[0];
         debug!("MemMap prepared for sequential read (len: {})", buf.remaining());
         Ok(UniBodyBuf::from_mmap(buf))
-- 
2.43.0


From 4c43ea3f04d9eb689091758e24ecbddc42f4fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:00 +0000
Subject: [PATCH 13/26] fix: allow polling again after a canceled permit

The permit future was kept after it had failed, so polling the stream or
sink again, as after the semaphore was closed, panicked.
---
 body-image-futio/src/sink.rs   | 1 +
 body-image-futio/src/stream.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/sink.rs b/body-image-futio/src/sink.rs
index deaa2d1..49cc8cb 100644
--- a/body-image-futio/src/sink.rs
+++ b/body-image-futio/src/sink.rs
@@ -244,6 +244,7 @@ impl<B> Sink<B> for PermitBodySink<B>
                     Some(p)
                 }
                 Poll::Ready(Err(e)) => {
+                    this.permit = None;
                     return Poll::Ready(Err(FutioError::OpCanceled(e)));
                 }
                 Poll::Pending => {
diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 26f6c9f..2bb62fc 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -390,7 +390,10 @@ impl<B> Stream for PermitBodyImage<B>
                     this.permit = None;
                     Some(p)
                 }
-                Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e.into()))),
+                Poll::Ready(Err(e)) => {
+                    this.permit = None;
+                    return Poll::Ready(Some(Err(e.into())));
+                }
             }
         } else {
             None
-- 
2.43.0


From d01aec390e8cfbb8b66dc2d13d18f4eab698f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:01 +0000
Subject: [PATCH 14/26] fix: apply --count after --index and print true offsets

Records skipped by --index were counted against --count by cat and cp,
and the offset printed by cat was not that of the record.
---
 barc-cli/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..c9a225f 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -228,13 +228,14 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let fout = &mut io::stdout();
     let nl = true;
     let mut i = 0;
+    let mut n = 0;
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
+            if i < s { i += 1; offset = reader.offset(); continue; }
         }
-        i += 1;
-        if i > count { break; }
+        n += 1;
+        if n > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -271,12 +272,13 @@ fn cp(
     let mut writer = bfout.writer()?;
 
     let mut i = 0;
+    let mut n = 0;
     while let Some(record) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        n += 1;
+        if n > count { break; }
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From 3d4f460ab25d50eaa8badd0bb8b3bbd91790c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:03 +0000
Subject: [PATCH 15/26] fix: refuse cp onto the same file by any path

Only equal path strings were refused. Given a different path to the same
file, cp would append its own records without end. Check all inputs
before copying any.
---
 barc-cli/src/main.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index c9a225f..802b62b 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -78,6 +79,11 @@ fn run() -> Result<(), Flaw> {
             let files = subm.values_of("file").unwrap();
             let fout = subm.value_of("out-file").unwrap();
             let (start, count) = filter_flags(subm)?;
+            for fin in files.clone() {
+                if is_same_file(fin, fout) {
+                    quit!("BARC input and output file are the same: {}", fin);
+                }
+            }
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -250,6 +256,14 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     Ok(())
 }
 
+// Return true if both paths are the same, or lead to the same existing file.
+fn is_same_file(a: &str, b: &str) -> bool {
+    a == b || match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false,
+    }
+}
+
 // The `cp` command implementation.
 fn cp(
     barc_in: &str,
@@ -259,9 +273,6 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
-        quit!("BARC input and output file are the same: {}", barc_in);
-    }
     let bfin = BarcFile::new(barc_in);
     let tune = Tunables::new();
     let mut reader = bfin.reader()?;
-- 
2.43.0


From 592aaf9acdccc1822e75f6c50795b26f6845cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:59 +0000
Subject: [PATCH 16/26] fix: avoid brotli quality 0, which may panic

With compression level 0, writing a record may panic in the brotli
encoder, depending on content. Use its quality 1 for that level.
---
 barc/src/compress.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 73a930f..b35dc0b 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -431,7 +431,9 @@ impl<'a> EncodeWrapper<'a> {
             brotli::CompressorWriter::new(
                 KeepError { file, error: None },
                 4096, //FIXME: tune?
-                compression_level,
+                // Quality 0 of brotli 3.3.0 may panic, for input with long
+                // repeats, so use the next fastest in its place.
+                compression_level.max(1),
                 21)
         )))
     }
-- 
2.43.0


From 76d56e2e0714d61d46e05214e8388b914ac05832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:51 +0000
Subject: [PATCH 17/26] fix: start fetch timeouts in the runtime context

---
 body-image-futio/src/fetch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 1d3657d..a8c93d3 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -38,7 +38,11 @@ pub fn fetch<B>(rr: RequestRecord<B>, tune: FutioTunables)
     let connector = hyper_tls::HttpsConnector::new();
     let client = hyper::Client::builder().build(connector);
 
-    let join = rt.spawn(request_dialog(&client, rr, tune));
+    let join = {
+        // The response timeout is started in the context of the runtime.
+        let _guard = rt.enter();
+        rt.spawn(request_dialog(&client, rr, tune))
+    };
     rt.block_on(join)
         .map_err(|e| FutioError::Other(Box::new(e)))?
 }
-- 
2.43.0


From 31365a912679e1895ceb79399ad56e52cbbd4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:40 +0000
Subject: [PATCH 18/26] fix: accept cp options before or between the files

An option with a value placed before the file arguments made the argument
parser end the list of inputs early, so that the command was refused. All
paths are now one argument, of which the last is the output.
---
 barc-cli/src/main.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 802b62b..548a262 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -68,7 +68,7 @@ fn run() -> Result<(), Flaw> {
         "cat" => {
             let parts = part_flags(subm);
             let files = subm.values_of("file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let (start, count) = filter_flags(subm, files.len())?;
             for f in files {
                 cat(f, &start, count, &parts)?;
             }
@@ -76,9 +76,9 @@ fn run() -> Result<(), Flaw> {
         }
         "cp" => {
             let cs = compress_flags(subm)?;
-            let files = subm.values_of("file").unwrap();
-            let fout = subm.value_of("out-file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let mut files = subm.values_of("file").unwrap();
+            let fout = files.next_back().unwrap(); // at least 2 (min_values)
+            let (start, count) = filter_flags(subm, files.len())?;
             for fin in files.clone() {
                 if is_same_file(fin, fout) {
                     quit!("BARC input and output file are the same: {}", fin);
@@ -152,10 +152,11 @@ fn compress_flags(matches: &ArgMatches<'_>)
     Ok(cs)
 }
 
-// Parse filter flags and return (StartPos, count) or error.
-fn filter_flags(matches: &ArgMatches<'_>) -> Result<(StartPos, usize), Flaw>
+// Parse filter flags, given the number of input files, and return (StartPos,
+// count) or error.
+fn filter_flags(matches: &ArgMatches<'_>, files_len: usize)
+    -> Result<(StartPos, usize), Flaw>
 {
-    let files_len = matches.values_of("file").unwrap().len();
     let mut start = StartPos::default();
     let mut count = usize::max_value();
     if let Some(v) = matches.value_of("index") {
@@ -422,6 +423,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
         .setting(AppSettings::DeriveDisplayOrder)
         .setting(AppSettings::DontDelimitTrailingValues)
         .about("Copy BARC records from input(s) to an output file")
+        .usage("barc cp [FLAGS] [OPTIONS] <BARC-IN-FILE>... <BARC-OUT-FILE>")
         .after_help(
             "By default, copies all records from the input file(s) and appends \
              to the output file. The options (--offset, --index, --count) can \
@@ -454,15 +456,15 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
                 .long("brotli")
                 .conflicts_with("gzip")
                 .help("Use Brotli compression strategy (brotli feature)"),
+            // One argument for all, as clap doesn't reliably separate a last
+            // file when there are options before or between the files
             Arg::with_name("file")
                 .required(true)
                 .multiple(true)
-                .value_name("BARC-IN-FILE")
-                .help("BARC file path(s) from which to read"),
-            Arg::with_name("out-file")
-                .required(true)
-                .value_name("BARC-OUT-FILE")
-                .help("BARC file path to create/append")
+                .min_values(2)
+                .value_name("BARC-FILE")
+                .help("BARC file path(s) from which to read, followed by \
+                       the path to create/append")
         ]);
 
     App::new("barc")
-- 
2.43.0


From ca9d7f7cc488e7b6d48bca23dd43babfb77c4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:40 +0000
Subject: [PATCH 19/26] fix: leave log verbosity as is when setup fails

A second call to setup_logger reports an error, but had changed the level
of the logger in place by then.
---
 piccolog/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index da6b4ab..975d953 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -95,6 +95,9 @@ pub fn test_logger() -> bool {
 ///
 /// Will fail if already setup.
 pub fn setup_logger(level: u32) -> Result<(), Flaw> {
+    let filter = level == 1;
+    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
+
     if level == 0 {
         log::set_max_level(log::LevelFilter::Info)
     } else if level < 3 {
@@ -102,9 +105,6 @@ pub fn setup_logger(level: u32) -> Result<(), Flaw> {
     } else {
         log::set_max_level(log::LevelFilter::Trace)
     }
-
-    let filter = level == 1;
-    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
     Ok(())
 }
 
-- 
2.43.0


From 199f64b6b67ca53fd8cf9d59e2b35894fc8a93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:58 +0000
Subject: [PATCH 20/26] fix: never show a partly written record head to readers

The final record head was written over the reserved one with one write.
A reader running at the same time could see part of either write, and so
report an error or, worse, return a record without its content. Write the
record type last, as one byte, read the head again once it was found, and
take a first part of the reserved head as the end.
---
 barc/src/lib.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 0b8fd93..68f1605 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -600,6 +600,9 @@ const CRLF: &[u8] = b"\r\n";
 // would panic.
 const MAX_HEADER_NAMES: usize = 24_576;
 
+// Position of the record type flag in the record head.
+const V2_REC_TYPE_POS: u64 = 19;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -710,9 +713,15 @@ impl<'a> BarcWriter<'a> {
                   orig_len, head.len);
         }
 
-        // Seek back and write final record head, with known size
+        // Seek back and write final record head, with known size. Since a
+        // concurrent reader may see any part of this write, the record type,
+        // by which the record becomes complete, follows as a single byte.
+        let rec_type = head.rec_type;
+        head.rec_type = RecordType::Reserved;
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
+        file.seek(SeekFrom::Start(start + V2_REC_TYPE_POS))?;
+        write_all_len(file, &[rec_type.flag() as u8])?;
 
         // Seek to end and flush
         file.seek(SeekFrom::End(0))?;
@@ -861,7 +870,10 @@ impl BarcReader {
 
         let rhead = match read_record_head(fin) {
             Ok(Some(rh)) => rh,
-            Ok(None) => return Ok(None),
+            Ok(None) => {
+                fin.seek(SeekFrom::Start(start))?;
+                return Ok(None);
+            }
             Err(e) => return Err(e)
         };
 
@@ -875,6 +887,14 @@ impl BarcReader {
             return Ok(None);
         }
 
+        // The record type is written last, so with it found, the head is
+        // final, but possibly wasn't for the bytes already read before it.
+        fin.seek(SeekFrom::Start(start))?;
+        let rhead = match read_record_head(fin)? {
+            Some(rh) => rh,
+            None => return Err(BarcError::ReadInvalidRecHead),
+        };
+
         if rhead.compress != Compression::Plain {
             let end = fin.tell() + rhead.len;
             let rec = read_compressed(
@@ -971,6 +991,13 @@ fn read_record_head<R>(rin: &mut R)
         return Ok(None);
     }
     if size != V2_HEAD_SIZE {
+        // With a concurrent writer, its possible to see only a first part of
+        // the Reserved record head.
+        let mut reserve = Vec::with_capacity(V2_HEAD_SIZE);
+        write_record_head(&mut reserve, &V2_RESERVE_HEAD)?;
+        if reserve.starts_with(&buf[..size]) {
+            return Ok(None);
+        }
         return Err(BarcError::ReadIncompleteRecHead(size));
     }
     if &buf[0..6] != b"BARC2 " {
-- 
2.43.0


From a05dc8e243cc217601f91f758d750b3248679732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:58 +0000
Subject: [PATCH 21/26] fix: limit what a body sink allocates in advance by
 estimate

---
 body-image/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 4b961c5..2d39d2d 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -205,8 +205,9 @@ impl BodySink {
         if size_estimate == 0 {
             BodySink::empty()
         } else {
-            // Estimate buffers based an 8 KiB buffer size + 1.
-            let cap = (size_estimate / 0x2000 + 1) as usize;
+            // Estimate buffers based an 8 KiB buffer size + 1. As this is only
+            // an estimate, limit what is allocated in advance.
+            let cap = (size_estimate / 0x2000 + 1).min(0x1000) as usize;
             BodySink::with_ram_buffers(cap)
         }
     }
-- 
2.43.0


From 4f7c66c693902e7339610ea2a3a6420af3d4ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:52:42 +0000
Subject: [PATCH 22/26] fix: bound what is allocated for a body by a record
 head alone

---
 barc/src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 68f1605..bbac94a 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1149,19 +1149,16 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Err(BarcError::ReadInvalidRecHead);
     }
 
-    let mut buf = BytesMut::with_capacity(len);
-    unsafe {
-        let b = &mut *(
-            buf.chunk_mut() as *mut _
-                as *mut [mem::MaybeUninit<u8>]
-                as *mut [u8]
-        );
-        rin.read_exact(&mut b[..len])?;
-        let l = if with_crlf { len - 2 } else { len };
-        buf.advance_mut(l);
+    // Limit what is allocated in advance, as len may be from a damaged head.
+    let mut buf = Vec::with_capacity(cmp::min(len, 0x40_0000));
+    if Read::take(&mut *rin, len as u64).read_to_end(&mut buf)? < len {
+        return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
+    }
+    if with_crlf {
+        buf.truncate(len - 2);
     }
 
-    Ok(BodyImage::from_slice(buf.freeze()))
+    Ok(BodyImage::from_slice(buf))
 }
 
 // Read into `BodyImage` state `FsRead`. Assumes no CRLF terminator
-- 
2.43.0


From 15c09ff9d8028f6900395ec1a9952608f3495d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:03 +0000
Subject: [PATCH 23/26] fix: keep the error code when finishing a brotli record

Errors of writing the last of a brotli compressed record were reported by
kind only. Retain the error with its code.
---
 barc/src/compress.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index b35dc0b..132ac40 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -379,13 +379,13 @@ enum Encoder<'a> {
     Brotli(Box<brotli::CompressorWriter<KeepError<'a>>>)
 }
 
-// Writer to the `File` that retains the kind of any error. This is needed because
+// Writer to the `File` that retains any error. This is needed because
 // `brotli::CompressorWriter` offers no means to finish its output which
 // doesn't ignore errors.
 #[cfg(feature = "brotli")]
 struct KeepError<'a> {
     file: &'a File,
-    error: Option<io::ErrorKind>,
+    error: Option<io::Error>,
 }
 
 #[cfg(feature = "brotli")]
@@ -393,7 +393,10 @@ impl<'a> Write for KeepError<'a> {
     fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
         self.file.write(buf).map_err(|e| {
             if e.kind() != io::ErrorKind::Interrupted {
-                self.error = Some(e.kind());
+                self.error = Some(match e.raw_os_error() {
+                    Some(code) => io::Error::from_raw_os_error(code),
+                    None => e.kind().into(),
+                });
             }
             e
         })
@@ -461,8 +464,8 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
-                if let Some(kind) = bcw.into_inner().error {
-                    return Err(io::Error::from(kind).into());
+                if let Some(e) = bcw.into_inner().error {
+                    return Err(e.into());
                 }
             }
         }
-- 
2.43.0


From bce96610a364d7429e2d3476b176e53d8c4606ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:05 +0000
Subject: [PATCH 24/26] fix: retry interrupted reads of compressed records

The decoders can't continue after a read fails with Interrupted, so that the
record was reported as corrupt, or its body cut short.
---
 barc/src/compress.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 132ac40..86a5147 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -496,15 +496,31 @@ impl<'a> Write for EncodeWrapper<'a> {
 /// Wrapper holding a decoder (providing `Read`) on a `Take` limited
 /// to a record of a BARC file.
 pub(crate) enum DecodeWrapper {
-    Gzip(Box<GzDecoder<ReadSlice>>),
+    Gzip(Box<GzDecoder<Uninterrupted>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::Decompressor<ReadSlice>>),
+    Brotli(Box<brotli::Decompressor<Uninterrupted>>),
+}
+
+/// Wrapper of a `ReadSlice` which retries interrupted reads, as decoders can
+/// not continue after such error.
+pub(crate) struct Uninterrupted(ReadSlice);
+
+impl Read for Uninterrupted {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                res => return res
+            }
+        }
+    }
 }
 
 impl DecodeWrapper {
     pub(crate) fn new(comp: Compression, r: ReadSlice, _buf_size: usize)
         -> Result<DecodeWrapper, BarcError>
     {
+        let r = Uninterrupted(r);
         match comp {
             Compression::Gzip => {
                 Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(r))))
-- 
2.43.0


From fe7c1a883e6c869deacdd2c5347c6bb088dd11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:07 +0000
Subject: [PATCH 25/26] fix: retry interrupted reads of a body file

Decoders reading from a body can't continue after a read fails with
Interrupted, so that decoding a response could give a truncated body.
---
 body-image/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 2d39d2d..ba46d88 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -859,7 +859,14 @@ impl<'a> Read for BodyReader<'a> {
         match *self {
             BodyReader::Contiguous(ref mut cursor) => cursor.read(buf),
             BodyReader::Scattered(ref mut gatherer) => gatherer.read(buf),
-            BodyReader::FileSlice(ref mut rslice) => rslice.read(buf),
+            BodyReader::FileSlice(ref mut rslice) => loop {
+                // Retry here if interrupted, as not all users of a `Read`,
+                // in particular decoders, can continue after such error.
+                match rslice.read(buf) {
+                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
+                    res => return res
+                }
+            }
         }
     }
 }
-- 
2.43.0


From d466d8efebc3df3dca5eafc0dbc9f5dbc8ed4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:04:44 +0000
Subject: [PATCH 26/26] fix: refuse cp onto a hard link of the same file

---
 barc-cli/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 548a262..209f141 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -259,6 +259,13 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
 
 // Return true if both paths are the same, or lead to the same existing file.
 fn is_same_file(a: &str, b: &str) -> bool {
+    // Hard links are only found by comparing what the paths lead to.
+    #[cfg(unix)] {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (fs::metadata(a), fs::metadata(b)) {
+            return a.dev() == b.dev() && a.ino() == b.ino();
+        }
+    }
     a == b || match (fs::canonicalize(a), fs::canonicalize(b)) {
         (Ok(a), Ok(b)) => a == b,
         _ => false,
-- 
2.43.0

