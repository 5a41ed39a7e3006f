From 0dfc68296ba881baf124603e3698eefc287ef7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:55 +0000
Subject: [PATCH 01/21] fix: BitRead2::read_bits no longer underflows once the
 cursor is past the end

skip_bits may move the cursor beyond the buffer; read_bits then computed
len - byte_pos (and len*8 - bit_pos) with an unchecked subtraction, which
panics in debug builds and wraps in release builds. Saturate, so the read
reports None like read_bit and read_byte do.
---
 ebi/src/io/bit_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..0216b27 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,8 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        let remaining_bytes = self.buffer.as_ref().len().saturating_sub(self.byte_pos);
+        if (remaining_bytes * 8).saturating_sub(self.bit_pos) < n as usize {
             return None;
         }
 
-- 
2.43.0


From 832367c8cc82ff0cf67aa171d59ef7f9afd40bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:32 +0000
Subject: [PATCH 02/21] fix: packing a 31-bit value no longer overflows

The mask in BitPack::write was computed as an i32, so bits == 31 evaluated
(1 << 31) - 1 on i32: a panic in debug builds.
---
 ebi/src/compression_common/buff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..86f34ac 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -87,7 +87,7 @@ pub(crate) mod bit_packing {
                 return Err(bits);
             }
             if bits < MAX_BITS {
-                value &= ((1 << bits) - 1) as u32;
+                value &= (1u32 << bits) - 1;
             }
 
             loop {
-- 
2.43.0


From 1e7f6a59d2ce966bdf53c41704d83bce95e408aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 03/21] fix: bit-wise reads that end on a byte boundary advance
 to the next byte

BitPack::read and read_bits left the cursor on the byte they had just used up
(bits == 8), so a following read_byte, read_n_byte, read_u32 or skip_n_byte
started one byte too early and returned the last byte again.
---
 ebi/src/compression_common/buff.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 86f34ac..107b357 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -168,6 +168,12 @@ pub(crate) mod bit_packing {
                     bb &= ((1 << bits) - 1) as u32;
                     output |= bb << bits_left;
                     self.bits += bits;
+
+                    if self.bits >= BYTE_BITS {
+                        self.cursor += 1;
+                        self.bits = 0;
+                    }
+
                     break;
                 }
 
@@ -225,6 +231,12 @@ pub(crate) mod bit_packing {
                     bb &= ((1 << bits) - 1) as u32;
                     output |= bb << bits_left;
                     self.bits += bits;
+
+                    if self.bits >= BYTE_BITS {
+                        self.cursor += 1;
+                        self.bits = 0;
+                    }
+
                     break;
                 }
 
-- 
2.43.0


From 063f5e3b60afdc16f245e8f68745cfd08e540da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:46 +0000
Subject: [PATCH 04/21] fix: the ELF encoder no longer shifts by 64 when only
 the sign bit differs

---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..8639918 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -196,7 +196,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -249,7 +249,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -258,7 +258,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From eed6f798dcf2d6133f674e40e80d3a4b2b728e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:47 +0000
Subject: [PATCH 05/21] fix: iterating an XOR-coded chunk again starts at its
 beginning

---
 ebi/src/decoder/chunk_reader/chimp_n.rs     | 1 +
 ebi/src/decoder/chunk_reader/general_xor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..22de353 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
-- 
2.43.0


From f61652fac00d85559ca74e5ea9aa3ab9b6395854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:47 +0000
Subject: [PATCH 06/21] fix: ELF erases bits only when the decoder restores the
 identical double

---
 ebi/src/compression_common/elf.rs   | 16 ++++++++++++++++
 ebi/src/compressor/elf.rs           | 17 +++++++----------
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..6e7794d 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -57,6 +57,22 @@ pub fn round_up(v: f64, alpha: u32) -> f64 {
     }
 }
 
+/// Restores the value whose low bits were erased, using its number of significant digits.
+pub fn restore(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star - sp - 1;
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 fn get_significant_count(v: f64, sp: i32, last_beta_star: i32) -> i32 {
     let mut i = if last_beta_star != i32::MAX && last_beta_star != 0 {
         std::cmp::max(last_beta_star - sp - 1, 1)
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 8639918..d12da7f 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -107,22 +107,19 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
             let (alpha, beta_star) = elf::get_alpha_and_beta_star(v, self.last_beta_star);
             let mut mask = u64::MAX;
             let mut delta = 0;
-            let mut erase_bits = 0;
 
-            if beta_star < 16 {
-                let e = (v_bits >> 52) & 0x7ff;
-                let g_alpha = elf::get_f_alpha(alpha) + e as u32 - 1023;
-                erase_bits = 52 - g_alpha as i32;
-                if erase_bits > 4 {
+            let e = ((v_bits >> 52) & 0x7ff) as i64;
+            if (0..16).contains(&beta_star) && e != 0 {
+                let g_alpha = elf::get_f_alpha(alpha) as i64 + e - 1023;
+                let erase_bits = 52 - g_alpha;
+                if erase_bits > 4 && erase_bits <= 52 {
                     mask = u64::MAX << erase_bits;
                     delta = (!mask) & v_bits;
-                } else {
-                    mask = u64::MAX;
-                    delta = 0;
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Erase only what the decoder is able to restore.
+            if delta != 0 && elf::restore(f64::from_bits(mask & v_bits), beta_star) == v {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..dad3927 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::restore(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From cbc45a981b54c0e078631ddb327a14a8c03d5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 07/21] fix: opening a file without chunks no longer panics

---
 ebi/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..abf8b88 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,9 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        let mut config_size = [0u8; 1];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From 46a362dc0f4c5f3c870dcbe120fb4151dcae3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 08/21] fix: an interrupted read of the input is retried
 instead of cutting the chunk

---
 ebi/src/encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..570c073 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,8 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From ba931c48c86cebabbc4d22a40ad42e926266430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:02 +0000
Subject: [PATCH 09/21] fix: a file whose writing was not finished is rejected
 instead of misread

---
 ebi/src/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index abf8b88..16e77b9 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -153,12 +153,17 @@ impl FileReader {
     /// After calling this method, the input stream is at the footer of the file.
     ///
     /// # Errors
-    /// Returns an error if the header is not read yet.
+    /// Returns an error if the header is not read yet,
+    /// or if the header has no valid footer offset, which is the case when the writing of the file was not finished.
     pub fn seek_to_footer<R: Read + Seek>(&mut self, input: &mut R) -> Result<()> {
         let footer_offset = self
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
-- 
2.43.0


From 6d2092499188077412e4f41763e62473e8a224db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:53 +0000
Subject: [PATCH 10/21] fix: iterating a run-length or uncompressed chunk again
 starts at its beginning

---
 ebi/src/decoder/chunk_reader/run_length.rs   | 12 +++++++++---
 ebi/src/decoder/chunk_reader/uncompressed.rs | 10 +++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..a46923d 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,7 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -72,6 +72,9 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
 
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
+        // An iterator may have moved the reader.
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
@@ -99,6 +102,9 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        // Another iterator may have moved the reader.
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +163,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..d14a6df 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,8 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        // An iterator may have moved the reader.
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +81,8 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        // Another iterator may have moved the reader.
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +127,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From 4360717207b6830246c9dc567cae1d41540c8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:53 +0000
Subject: [PATCH 11/21] fix: run-length compression of no records no longer
 panics

---
 ebi/src/compressor/run_length.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebi/src/compressor/run_length.rs b/ebi/src/compressor/run_length.rs
index f9a0eef..ec041bb 100644
--- a/ebi/src/compressor/run_length.rs
+++ b/ebi/src/compressor/run_length.rs
@@ -63,6 +63,9 @@ impl Default for RunLengthCompressor {
 impl Compressor for RunLengthCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if input.is_empty() {
+            return Ok(());
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
@@ -139,6 +142,9 @@ impl Compressor for RunLengthCompressor {
 
 impl AppendableCompressor for RunLengthCompressor {
     fn append_compress(&mut self, input: &[f64]) {
+        if input.is_empty() {
+            return;
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
-- 
2.43.0


From bd921cb2f710c0634aea712e9e74cc051826008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 12/21] fix: zstd compression and uncompressed rewinding count
 the input bytes of the current chunk

---
 ebi/src/compressor/uncompressed.rs | 6 +++++-
 ebi/src/compressor/zstd.rs         | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..db0c81d 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -1,4 +1,7 @@
-use std::{mem::size_of_val, slice};
+use std::{
+    mem::{size_of, size_of_val},
+    slice,
+};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +90,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
diff --git a/ebi/src/compressor/zstd.rs b/ebi/src/compressor/zstd.rs
index aafe28f..4a6f1fa 100644
--- a/ebi/src/compressor/zstd.rs
+++ b/ebi/src/compressor/zstd.rs
@@ -47,6 +47,7 @@ impl From<ZstdCompressorConfig> for ZstdCompressor {
 
 impl Compressor for ZstdCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let bytes =
             unsafe { std::slice::from_raw_parts(input.as_ptr().cast::<u8>(), size_of_val(input)) };
         self.total_bytes_in += bytes.len();
-- 
2.43.0


From 81bae312edbbdde673403255b9a40105721a837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 13/21] fix: the nearest-vector search handles vectors that
 span chunks

---
 ebi/src/api/decoder.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..291dc38 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,10 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
@@ -494,18 +498,22 @@ impl<R: Read + Seek> Decoder<R> {
 
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                processing_vector.distance += chunk_reader.distance_squared(
+                    0,
+                    &target[remaining_target_start..remaining_target_start + n_records_in_vector],
+                )?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                remaining_records -= n_records_in_vector;
+                offset += n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance < min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From 88c50b9cd49a404f307cc615f1c7748c13d77c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:38 +0000
Subject: [PATCH 14/21] fix: matrix multiplication handles matrices that span
 chunks and empty files

---
 ebi/src/api/decoder.rs | 63 ++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 291dc38..d1fbf01 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -623,40 +623,49 @@ impl<R: Read + Seek> Decoder<R> {
         let (target_rows, target_columns) = target_matrix_shape;
         let (data_rows, data_columns) = data_matrix_shape;
 
-        let is_matrix_shape_invalid = data_columns != target_rows;
-        let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
-        if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
+        let data_matrix_size = data_rows * data_columns;
+        let is_matrix_shape_invalid = data_columns != target_rows || data_matrix_size == 0;
+        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+        if is_matrix_shape_invalid
+            || is_target_matrix_shape_invalid
+            || number_of_records % data_matrix_size != 0
+        {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
-        let batch_size = number_of_records / (data_rows * data_columns);
-
-        let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
-
-        let mut offset_in_chunk = 0;
-        let mut chunk_index = 0;
-        let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
+        let batch_size = number_of_records / data_matrix_size;
 
-                    result_matrices.push(result);
+        let mut result_matrices = vec![0.0; batch_size * data_rows * target_columns];
+
+        let number_of_chunks = self.footer().number_of_chunks() as usize;
+        let mut record_index = 0;
+        for chunk_index in 0..number_of_chunks {
+            let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+            let chunk_number_of_records = chunk_reader.number_of_records() as usize;
+
+            let mut offset_in_chunk = 0;
+            while offset_in_chunk < chunk_number_of_records {
+                // A row of the data matrix may continue in the next chunk.
+                let row_index = record_index / data_columns;
+                let column_index = record_index % data_columns;
+                let n_columns =
+                    (data_columns - column_index).min(chunk_number_of_records - offset_in_chunk);
+
+                let result_row = &mut result_matrices[row_index * target_columns..];
+                for (result, target_column) in result_row
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader.dot_product(
+                        offset_in_chunk,
+                        &target_column[column_index..column_index + n_columns],
+                    )?;
                 }
+                offset_in_chunk += n_columns;
+                record_index += n_columns;
             }
-            offset_in_chunk += data_rows * data_columns;
+            timer += chunk_reader.segmented_execution_times();
         }
-        debug_assert!(chunk_reader.is_last_chunk());
-        timer += chunk_reader.segmented_execution_times();
 
         self.timer = timer;
 
-- 
2.43.0


From 83a380b19840471a8fea6dfd9c38eb5c6bed0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 15/21] fix: the minimum of a decompressed Sprintz chunk is no
 longer its maximum

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..3a8edce 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 10f74ed69c735cb3a90a61b281621cd359a25447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 16/21] fix: decompressing a Sprintz chunk after another query
 starts at its beginning

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 3a8edce..fea6113 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
-- 
2.43.0


From 5343a0ec9d2fc5069ae9ab34275d42b2aefdd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 17/21] fix: the sum over no selected record of a Sprintz chunk
 is zero

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index fea6113..4c286e8 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -290,7 +290,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 0664b155755a2eea5b22d09ca2fa98cb78646c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 18/21] fix: Sprintz and BUFF compression of no records no
 longer panics

---
 ebi/src/compressor/buff.rs    | 7 ++++---
 ebi/src/compressor/sprintz.rs | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 8c62872..b0a50a0 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -236,7 +236,7 @@ mod internal {
         timer: &mut SegmentedExecutionTimes,
     ) -> Vec<u8> {
         let fixed_representation_values = precalculated.fixed_representation_values();
-        let base_fixed64 = precalculated.min_fixed().unwrap();
+        let base_fixed64 = precalculated.min_fixed().unwrap_or(0);
 
         let delta_timer = timer.start_measurement(SegmentKind::Delta);
         let delta_fixed_representation_values = fixed_representation_values
@@ -245,8 +245,9 @@ mod internal {
             .collect::<Vec<u64>>();
         delta_timer.stop();
 
-        let fixed_representation_bits_length =
-            precalculated.fixed_representation_bits_length().unwrap();
+        let fixed_representation_bits_length = precalculated
+            .fixed_representation_bits_length()
+            .unwrap_or(0);
         let fractional_part_bits_length = precalculated.fractional_part_bits_length() as usize;
         let number_of_records = precalculated.number_of_records() as u32;
 
diff --git a/ebi/src/compressor/sprintz.rs b/ebi/src/compressor/sprintz.rs
index 912fe44..2e987da 100644
--- a/ebi/src/compressor/sprintz.rs
+++ b/ebi/src/compressor/sprintz.rs
@@ -186,7 +186,9 @@ mod delta_impl {
         let delta_zigzag_encoded = buffer;
         delta_zigzag_encoded.reserve(number_of_records);
 
-        let initial_number = quantized_input.next().unwrap();
+        let Some(initial_number) = quantized_input.next() else {
+            return (0, 0);
+        };
         let mut previous = initial_number;
 
         let mut encoded_ptr = delta_zigzag_encoded.as_mut_ptr();
-- 
2.43.0


From cf453d0fc2f03791cb035cc497e306af184f1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 19/21] fix: BUFF compression counts the input bytes of the
 current chunk

---
 ebi/src/compressor/buff.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index b0a50a0..c3a81d8 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -45,6 +45,7 @@ impl BUFFCompressor {
 
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
-- 
2.43.0


From e4fdcff5d33c693c34da26ba53425678c658da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 20/21] fix: the sum of a constant BUFF chunk respects the
 bitmask

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..f7fedb1 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -80,7 +80,8 @@ pub(super) fn sum_with_bitmask(
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        let accumulated_len = bitmask.map_or(number_of_records as u64, |bm| bm.len());
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
-- 
2.43.0


From 296113165bc607a327d79673e339b1a02a0e7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 21/21] fix: BUFF filters respect the bitmask for predicates
 outside the chunk's range and match no value beyond it

---
 .../decoder/chunk_reader/buff/filter_cmp.rs   | 20 ++++++++++++++++---
 .../decoder/chunk_reader/buff/filter_eq.rs    |  6 +++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..56e8b54 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -326,10 +326,20 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
-        return if IS_GREATER { all() } else { none() };
+        return if IS_GREATER {
+            bitmask.unwrap_or_else(all)
+        } else {
+            none()
+        };
     }
     if fixed_representation_bits_length == 0 {
-        let all_if_or_none = |p: bool| if p { all() } else { none() };
+        let all_if_or_none = |p: bool| {
+            if p {
+                bitmask.unwrap_or_else(all)
+            } else {
+                none()
+            }
+        };
         return match (IS_GREATER, INCLUSIVE) {
             (true, true) => all_if_or_none(fixed_base64 >= fixed_pred),
             (true, false) => all_if_or_none(fixed_base64 > fixed_pred),
@@ -346,7 +356,11 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
             64 - delta_fixed_pred.leading_zeros()
         };
         if fixed_representation_bits_length < pred_fixed_representation_bits_length {
-            return if IS_GREATER { none() } else { all() };
+            return if IS_GREATER {
+                none()
+            } else {
+                bitmask.unwrap_or_else(all)
+            };
         }
     }
 
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..9f1cfc5 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -105,13 +105,17 @@ pub(crate) fn buff_simd256_equal_filter(
     }
     if fixed_representation_bits_length == 0 {
         return if fixed_pred == fixed_base64 {
-            all()
+            bitmask.unwrap_or_else(all)
         } else {
             none()
         };
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    if u64::BITS - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        // The predicate is larger than any value of this chunk
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0

