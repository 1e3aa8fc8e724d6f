From c9fd94f7a964f044267f3e360f81c6f5e7c8ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 01/13] fix: zero the bitmap words when a Bitmap is cleared

clear() only reset the length, so bits set before the clear showed up
again as set for items appended afterwards.
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 2c9e3c9c7f0b0d616e43a2582568d98ef375e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/13] fix: make Bitmap::with_capacity(n < 8) growable

A capacity below eight bits produced an empty byte vector and append()
grows by doubling, so the first append indexed out of bounds.
---
 src/store/indexing_buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..f4ec0dd 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -44,7 +44,8 @@ impl Bitmap {
 
     pub fn with_capacity(cap: usize) -> Self {
         Self {
-            values: vec![0; cap >> 3],
+            // at least one byte: append() grows by doubling the current size.
+            values: vec![0; (cap >> 3).max(1)],
             len: 0,
         }
     }
-- 
2.43.0


From b896d0bfbc31d7205d6b385073481c6539191685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 03/13] fix: compare bytes with bytes when topping up a
 primitive block

The number of pending items was compared with the block size in bytes, so
encode() returned early and dropped the rest of the buffer.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From 81130dccf85268b8474c4a748a008902ac155f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 04/13] fix: return an absolute end position from the binary
 chunker

find_position() yields an index relative to the searched sub-slice. Every
chunk after the first one got a wrong end, so the encoder panicked or
looped forever.
---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..57bdf4f 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 0b1bd6ec1e869a94a6f0e0597c856b8b065be645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 05/13] fix: count only the rows of the block being encoded

For nullable columns the absolute validity position was added to the row
counter, so row ids were wrong from the second block of a buffer on.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 57bdf4f..da2bbd8 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From 039e81e77becc381c8e8fef56907aad6fe355006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 06/13] fix: compute the offsets bit width over every packed
 block

BitPacker4x::num_bits() panics unless it gets exactly BLOCK_LEN values, so
blocks with no values or with more than 128 values could not be encoded.
---
 src/store/encoding/offsets.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..dd87e33 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,12 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        // the packer only accepts whole blocks, use the widest one.
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 31fcb3f08841e218bb4ee897905e9ec9e39ecf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 07/13] fix: keep every packed offset

BitPacker4x interleaves the values of a block over four lanes, so cutting
the packed bytes to ceil(num_values * num_bits / 8) removed offsets that
were not padding.
---
 src/store/encoding/offsets.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index dd87e33..226e487 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -34,8 +34,6 @@ impl OffsetEncoder {
     /// └───────────────────┴─────────────────────────┘
     /// ```
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
@@ -48,9 +46,7 @@ impl OffsetEncoder {
 
         dst.push(num_bits);
 
-        let encoded_data_start = dst.len();
-
-        let mut chunk_start = encoded_data_start;
+        let mut chunk_start = dst.len();
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
@@ -60,10 +56,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From e29921307083e86497ce1bf4b4f2dce47cf58ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 08/13] fix: do not write the pending items again on a second
 flush

flush() left the flushed items in the pending buffer, so closing a column
writer twice stored its last block twice.
---
 src/store/encoding/raw/binary_enc.rs    | 1 +
 src/store/encoding/raw/primitive_enc.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index da2bbd8..7b7f4cf 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -164,6 +164,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.len() > 0 {
             self.write_remaining(sink).await?;
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..56d47e8 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -155,6 +155,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
         if self.remaining.len() > 0 {
             self.write_remaining(sink).await?;
+            self.remaining.clear();
         }
 
         Ok(EncoderLayout::Plain(NoLayout {}))
-- 
2.43.0


From 3937f4e1e1d116c56fd3e8142db33e96a1fa92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 09/13] fix: store the nulls that follow the last value of a
 buffer

Validity bits were only copied up to the last non-null value, so trailing
nulls (and buffers holding nothing but nulls) were dropped and the rows
appended later moved up.
---
 src/store/encoding/bitmap_rle.rs        |  8 ++++++++
 src/store/encoding/raw/binary_enc.rs    | 10 +++++++---
 src/store/encoding/raw/primitive_enc.rs | 14 ++++++++++---
 src/store/indexing_buffer.rs            | 26 +++++++++++++++++++++++--
 4 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..bbb91ab 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -80,6 +80,14 @@ impl Encoder {
         bit_pos
     }
 
+    /// encode all the bits of `bitmap` starting at `start_pos`
+    pub fn put_tail(&mut self, bitmap: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..bitmap.len() {
+            self.put(bitmap.is_set(bit_pos));
+        }
+        bitmap.len()
+    }
+
     /// flush the internal buffer and encode pending values.
     /// once the encoder is flushed use `encoded_values()` to access the encoded
     /// buffer.
diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 7b7f4cf..707451b 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -125,7 +125,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -162,7 +162,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
             self.remaining.clear();
         }
@@ -204,7 +204,11 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            // the last block also owns the nulls that follow the last value.
+            if chunk.end_pos == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 56d47e8..49b186c 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -111,7 +111,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -127,6 +127,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             self.write_remaining(sink).await?;
 
             self.remaining.clear();
+        } else if buffer.len() == 0 {
+            // nothing but nulls.
+            self.remaining.append_from(buffer, 0, 0, 0);
+            return Ok(());
         }
 
         while buf_pos < buffer.len() {
@@ -153,7 +157,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
             self.remaining.clear();
         }
@@ -182,7 +186,11 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            // the last block also owns the nulls that follow the last value.
+            if end == buf.len() {
+                last_bit_pos = bitmap_encoder.put_tail(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index f4ec0dd..ada3d72 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -76,6 +76,14 @@ impl Bitmap {
         bit_pos
     }
 
+    /// Append all the bits of `src` starting at `start_pos`.
+    pub fn append_tail(&mut self, src: &Bitmap, start_pos: usize) -> usize {
+        for bit_pos in start_pos..src.len() {
+            self.append(src.is_set(bit_pos));
+        }
+        src.len()
+    }
+
     pub fn is_set(&self, idx: usize) -> bool {
         assert!(idx < self.len);
         (self.values[idx >> 3] & BIT_MASK[idx & 7]) != 0
@@ -148,7 +156,14 @@ impl<T: Clone> PrimitiveBuffer<T> {
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
 
-            validity_dst.append_from(validity_src, validity_pos, num_values)
+            let bit_pos = validity_dst.append_from(validity_src, validity_pos, num_values);
+
+            // the last range also owns the nulls that follow the last value.
+            if end == buf.len() {
+                validity_dst.append_tail(validity_src, bit_pos)
+            } else {
+                bit_pos
+            }
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             num_values
@@ -275,7 +290,14 @@ impl BinaryBuffer {
                 .validity
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
-            validity_dst.append_from(validity_src, validity_pos, chunk_len)
+            let bit_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
+
+            // the last range also owns the nulls that follow the last value.
+            if end == buf.len() {
+                validity_dst.append_tail(validity_src, bit_pos)
+            } else {
+                bit_pos
+            }
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             chunk_len
-- 
2.43.0


From 41bce23e4aacd2f1af3926a2c50c05dbfe20d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 10/13] fix: do not configure an empty seed when no seeds are
 given

Splitting the empty default yields one empty host name.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 0e253ee..b51f9a1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -62,6 +62,7 @@ fn main() {
             .unwrap_or_default()
             .split(',')
             .map(|s| s.trim().to_string())
+            .filter(|s| !s.is_empty())
             .collect(),
     };
 
-- 
2.43.0


From a235f655ce729727cd7d9d59165e250e21ceca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 11/13] fix: stat the segment file on the blocking pool

Reader::new() ran the fstat() on the executor thread.
---
 src/store/io/unix_disk_block_reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..5c8d7a1 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -45,8 +45,12 @@ pub struct Reader {
 impl Reader {
     pub async fn new<P: AsRef<Path>>(path: P) -> io::Result<Self> {
         let path = path.as_ref().to_owned();
-        let file = asyncify(|| File::open(path)).await?;
-        let metadata = file.metadata()?;
+        let (file, metadata) = asyncify(|| {
+            let file = File::open(path)?;
+            let metadata = file.metadata()?;
+            Ok((file, metadata))
+        })
+        .await?;
 
         Ok(Reader {
             file: Arc::new(file),
-- 
2.43.0


From 95c6dd3c3a5595d0f414cb863f117126c27dc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 12/13] fix: report failed pending writes when a block writer
 is synced

---
 src/store/io/default_block_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..55e08fa 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -48,6 +48,8 @@ impl Writer {
     /// This function will attempt to ensure that all in-core data reaches
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
+        // `File::sync_all()` doesn't report the failure of a pending write.
+        self.file.flush().await?;
         self.file.sync_all().await
     }
 
-- 
2.43.0


From a40593a6d2e285037e87deffda804fe3971d3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 13/13] fix: use the documented 128 KiB block size

---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..7977d78 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0

