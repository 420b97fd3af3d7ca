From 358feb47edcff357c2065f41efff6c9f14b8a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 01/40] fix: sequential seek to the right point of
 variable-size chunks, and near or past the end

The offset inside the chunk was computed with a modulo of the chunk's own size,
which is wrong when chunks have different sizes. The safeguard of the last chunk
refused points that the decoder could decode without needing more bytes, and
a seek past the end left already buffered points in the decompressor.
---
 src/laszip/sequential/decompression.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..cec684b 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -202,7 +202,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            let num_points_before_chunk = chunk_table[..chunk_of_point]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - num_points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
@@ -230,8 +234,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
+                    // Being exactly at the chunk table is fine, the last bytes of a chunk
+                    // may be enough to decompress many points.
+                    if current_pos > offset_to_chunk_table {
+                        self.seek_past_end()?;
                         return Ok(());
                     }
                 }
@@ -250,7 +256,18 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
             // Seek to the end so that the next call to decompress causes en error
             // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.seek_past_end()?;
+        }
+        Ok(())
+    }
+
+    /// Moves to the end of the source, and forgets about the chunk that was being decompressed
+    /// (as its points may already have been buffered), so that the next decompression is an error
+    fn seek_past_end(&mut self) -> crate::Result<()> {
+        self.get_mut().seek(SeekFrom::End(0))?;
+        self.reset_for_new_chunk();
+        if let Some(seek_info) = &self.seek_info {
+            self.current_chunk = seek_info.chunk_table.len();
         }
         Ok(())
     }
-- 
2.43.0


From bece1fea3dee0eabceca167c7f055679a5161f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 02/40] fix: sequential decompression past the last chunk is an
 error

It read the chunk table as if it were points (fixed-size chunks), or
panicked when indexing the chunk table (variable-size chunks).
---
 src/laszip/sequential/decompression.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index cec684b..c8fc138 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -144,6 +144,16 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if let Some(seek_info) = &self.seek_info {
+            // What follows the last chunk is the chunk table, not points.
+            if self.current_chunk >= seek_info.chunk_table.len() {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::UnexpectedEof,
+                    "no more chunks in the chunk table",
+                ));
+            }
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
-- 
2.43.0


From ffc1cf55b075ff6a0a3dccc4cf532bc2d6a4cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 03/40] fix: sequential decompression without a usable chunk
 table starts at the first chunk

With a seekable source, the failed attempt to read the chunk table left the
source anywhere, the points were then decompressed from there.
---
 src/laszip/sequential/decompression.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index c8fc138..42f6ecd 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -42,6 +42,21 @@ impl SeekInfo {
     }
 }
 
+/// Moves the source to the first chunk, when the chunk table could not be read.
+///
+/// If the source is seekable, reading the chunk table may have failed after
+/// the source was moved away from the `start_of_data`.
+fn skip_chunk_table_offset<R: Read + Seek>(
+    source: &mut R,
+    start_of_data: Option<u64>,
+) -> std::io::Result<()> {
+    if let Some(start_of_data) = start_of_data {
+        source.seek(SeekFrom::Start(start_of_data))?;
+    }
+    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
+    source.read_exact(&mut tmp)
+}
+
 /// LasZip decompressor that decompresses points.
 ///
 /// Supports both **fixed-size** and **variable-size** chunks.
@@ -74,6 +89,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        let start_of_data = source.seek(SeekFrom::Current(0)).ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -90,8 +106,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         // So we _may_ still be at the start of point data,
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
-                        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                        source.read_exact(&mut tmp)?;
+                        skip_chunk_table_offset(&mut source, start_of_data)?;
                         None
                     }
                     (Err(err), true) => {
@@ -108,8 +123,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
-                    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                    source.read_exact(&mut tmp)?;
+                    skip_chunk_table_offset(&mut source, start_of_data)?;
                 }
                 seek_info
             }
-- 
2.43.0


From d7743bf8397e2f696ad57c4a50a67711c677a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 04/40] fix: parallel seek: variable-size chunks, selection,
 short reads, seeking past the end

The position in the chunk was computed with the vlr's chunk size, which has no
meaning for variable-size chunks, the selection was not given to the
decompressor of the chunk, a short read was not completed, and after seeking
past the end the next decompression still gave points.
---
 src/laszip/parallel/decompression.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..9de3e2a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -224,15 +224,22 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
+                // No chunks left, to force an EOF error on next decompression
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
+        let num_points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_chunk = index - num_points_before_chunk;
 
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         // Completely decompress the chunk
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
@@ -246,16 +253,18 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
+            self.rest.get_mut().resize(num_bytes_decompressed, 0u8);
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
                 // force EOF error on next decompression
                 self.rest.set_position(self.rest.get_ref().len() as u64);
+                self.last_chunk_read = chunk_of_point as isize;
                 return Ok(());
             }
         } else {
@@ -263,7 +272,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
-- 
2.43.0


From e9fb2fd0f4b301ea09883d7635a032614cdc88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 05/40] fix: asking the parallel decompressor for more points
 than there are is an error

It was a panic (or an underflow when debug assertions are disabled).
---
 src/laszip/parallel/decompression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 9de3e2a..e420636 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -140,10 +140,14 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             )));
         }
 
+        if num_points < num_requested_points_left {
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "not enough points in the chunks of the chunk table",
+            )));
+        }
+
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
-- 
2.43.0


From 08007958d5b139e24372fe545dd83a8b9b9d5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 06/40] fix: parallel decompression of buffers: last chunk,
 partial reads, and bounds

par_decompress_buffer dropped the last 8 bytes of points, and a last chunk
with less points than the chunk size was a panic.
---
 src/laszip/parallel/decompression.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index e420636..be48bce 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -335,7 +335,11 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let start_of_points = std::mem::size_of::<i64>();
+    let compressed_points = compressed_points_data
+        .get(start_of_points..)
+        .and_then(|points| points.get(..num_point_bytes))
+        .ok_or_else(|| std::io::Error::from(std::io::ErrorKind::UnexpectedEof))?;
     par_decompress(
         compressed_points,
         decompressed_points,
@@ -359,9 +363,22 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
+    // The last chunk of fixed-size chunks may have less points than its entry says,
+    // and the caller may not want all the points.
+    let mut num_bytes_left = decompressed_points.len();
     let counts = chunk_table
         .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+        .map(|entry| {
+            let num_bytes = (entry.point_count * laz_vlr.items_size()) as usize;
+            let num_bytes = num_bytes.min(num_bytes_left);
+            num_bytes_left -= num_bytes;
+            num_bytes
+        })
+        .collect::<Vec<usize>>();
+    if num_bytes_left != 0 || sizes.clone().sum::<usize>() > compressed_points.len() {
+        // Either more points or more chunks are wanted than what we were given
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From c20bb3a9b28d38f29b68243495950ca328f94e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 07/40] fix: chunks without points are not written

Finishing a chunk without points, or being done right after finishing a chunk
added bytes and an entry with 0 points in the chunk table, with which the
points that follow could not be decompressed.
---
 src/laszip/parallel/compression.rs   |  8 +++++++-
 src/laszip/sequential/compression.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..5dce203 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -334,7 +334,9 @@ where
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
-            compress_one_chunk(slc, laz_vlr, &mut output)?;
+            if !slc.is_empty() {
+                compress_one_chunk(slc, laz_vlr, &mut output)?;
+            }
             let vec = output.into_inner();
             Ok((slc.len(), vec))
         })
@@ -344,6 +346,10 @@ where
     let point_size = laz_vlr.items_size() as usize;
     for chunk_result in chunks {
         let (input_size, compressed_data) = chunk_result?;
+        if input_size == 0 {
+            // Chunks without points are not written
+            continue;
+        }
         let point_count = if laz_vlr.uses_variable_size_chunks() {
             (input_size / point_size) as u64
         } else {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..cccafd5 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count != 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -225,6 +227,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // There is no chunk to finish
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From fcf9092aec8f35b84888a9180a7d5d3370a32c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 08/40] fix: appending after complete chunks, and to
 variable-size chunks in parallel

The entry of the first chunk written by the sequential appender counted
the bytes of the chunks before it, making these unreadable.
The parallel appender could not recompress the last chunk of variable-size chunks.
---
 src/laszip/parallel/appender.rs      |  9 ++++++++-
 src/laszip/sequential/appender.rs    | 22 +++++++++++++++-------
 src/laszip/sequential/compression.rs |  6 ++++++
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..27b7463 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -21,7 +21,14 @@ where
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            |compressor, pos, points| {
+                compressor.get_mut().seek(SeekFrom::Start(pos))?;
+                if compressor.vlr().uses_variable_size_chunks() {
+                    compressor.compress_chunks([points])
+                } else {
+                    compressor.compress_many(points)
+                }
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..4a5aefc 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -15,17 +15,20 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
+///
+/// `resume_at` must move the compressor to the position it is given and
+/// compress the points it is given (if any).
 pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
+    resume_at: F2,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, u64, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -99,11 +102,13 @@ where
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
     let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
     // Rewrite the last chunk we read
-    if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
-    }
+    let start_of_points = start_of_data + ChunkTable::OFFSET_SIZE as u64;
+    resume_at(
+        &mut compressor,
+        start_of_points + last_chunk_pos,
+        &data_to_recompress,
+    )?;
 
     Ok((compressor, chunk_table))
 }
@@ -125,7 +130,10 @@ where
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            |compressor, pos, points| {
+                compressor.start_chunk_at(pos)?;
+                compressor.compress_many(points)
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index cccafd5..576360c 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -202,6 +202,12 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.record_compressor.get()
     }
 
+    /// Moves the destination, so that the next chunk starts at the given position
+    pub(crate) fn start_chunk_at(&mut self, pos: u64) -> std::io::Result<()> {
+        self.chunk_start_pos = self.get_mut().seek(SeekFrom::Start(pos))?;
+        Ok(())
+    }
+
     /// Returns the position in the file where the offset to chunk
     /// table is.
     pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-- 
2.43.0


From 9487693eb576d4fab289f94cc037f9f22e62796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 09/40] fix: appending when the given point count is 0 or more
 than there are points

0 underflowed, and a too big count reserved memory for all of it.
---
 src/laszip/sequential/appender.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 4a5aefc..97479cc 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -43,7 +43,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // No points to keep
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
@@ -71,6 +74,8 @@ where
             // but, we chose not to completely trust the point count we received
             points_to_read = u64::from(vlr.chunk_size());
         }
+        // There cannot be more points than what the chunk may contain
+        points_to_read = points_to_read.min(chunk_table[chunk_index].point_count);
 
         if points_to_read > 0 {
             let size_of_chunk = chunk_table[chunk_index].byte_count;
-- 
2.43.0


From e3f3d090fdb34376d2b7a0e4f5fb2d335bef90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 10/40] fix: variable-size layered chunks without chunk table

The number of points of the chunk is known from the chunk itself, but it was
not given to the decompressor which then did not know where chunks end.
---
 src/record.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..66c0680 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -350,6 +350,7 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     is_first_decompression: bool,
     fields_sizes: Vec<usize>,
     record_size: usize,
+    record_count: u64,
     context: usize,
 }
 
@@ -363,6 +364,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             is_first_decompression: true,
             fields_sizes: vec![],
             record_size: 0,
+            record_count: 0,
             context: 0,
         }
     }
@@ -454,6 +456,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        self.record_count
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +478,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = self.input.read_u32::<LittleEndian>()?.into();
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
-- 
2.43.0


From 7bafe827420c3633606b3165ca7ce11a237e18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 11/40] fix: chunk sizes above 2 GiB and untrusted number of
 chunks in the chunk table

Sizes were sign extended, and a corrupted number of chunks reserved up to 64 GiB.
---
 src/laszip/chunk_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..91c2873 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -151,7 +151,8 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        // The number of chunks cannot be trusted until we know there are that many entries
+        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks.min(1 << 16) as usize);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
@@ -163,13 +164,13 @@ impl ChunkTable {
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32 as u64);
             }
             current_entry.byte_count = u64::from_le(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32 as u64);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 029ce5ccb0383297a019881877efcedc13a17be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 12/40] fix: RGB version 1 when the upper byte of a color
 changes

The decompressor kept the bits of the previous upper byte, and the
compressor used the context of green for the upper byte of blue.
---
 src/las/rgb.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From 62f951c9aefce2c746817ba7dfaa26600352c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:54 +0000
Subject: [PATCH 13/40] fix: overflow on extreme gps times and wave packet
 return values

---
 src/las/gps.rs        | 88 +++++++++++++++++++++----------------------
 src/las/wavepacket.rs |  9 +++--
 2 files changed, 50 insertions(+), 47 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..b66016e 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -500,6 +504,12 @@ pub mod v2 {
                 multi_extreme_counters: [0i32; 4],
             }
         }
+
+        /// The difference between two gps times wraps around
+        fn add_to_last_gps_time(&mut self, gps_time_diff: i32) {
+            let last_gps_time = &mut self.last_gps_times[self.last];
+            last_gps_time.value = last_gps_time.value.wrapping_add(i64::from(gps_time_diff));
+        }
     }
 
     pub struct GpsTimeCompressor {
@@ -578,12 +588,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +654,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +794,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,15 +900,11 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
-                            *self
-                                .common
-                                .last_gps_time_diffs
-                                .get_unchecked(self.common.last),
-                        );
+                        let gps_time_diff = *self
+                            .common
+                            .last_gps_time_diffs
+                            .get_unchecked(self.common.last);
+                        self.common.add_to_last_gps_time(gps_time_diff);
                         *self
                             .common
                             .multi_extreme_counters
@@ -947,19 +954,15 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
-                            self.ic_gps_time.decompress(
-                                &mut decoder,
-                                *self
-                                    .common
-                                    .last_gps_time_diffs
-                                    .get_unchecked(self.common.last as usize),
-                                1,
-                            )?,
-                        );
+                        let gps_time_diff = self.ic_gps_time.decompress(
+                            &mut decoder,
+                            *self
+                                .common
+                                .last_gps_time_diffs
+                                .get_unchecked(self.common.last as usize),
+                            1,
+                        )?;
+                        self.common.add_to_last_gps_time(gps_time_diff);
                         *self
                             .common
                             .multi_extreme_counters
@@ -1089,10 +1092,7 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
-                            .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                        self.common.add_to_last_gps_time(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..cf6dadf 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,8 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 =
+                (current_item.offset as i64).wrapping_sub(self.last_wavepacket.offset as i64);
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
-- 
2.43.0


From 46e737876c9aa736134d64f9178375a8afb09759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 14/40] fix: overflow on extreme coordinates in point 10
 version 1

---
 src/las/point0.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
-- 
2.43.0


From fdb40244c82d545e33f48f68c993913732bcc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 15/40] fix: layered points: gps times 0.0 and -0.0 differ,
 overflow on extreme gps times

---
 src/las/gps.rs    |  8 ++++----
 src/las/point6.rs | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index b66016e..5e6cca7 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..eb5adb3 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
@@ -1665,7 +1666,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // 0.0 and -0.0 are equal but do not have the same bytes
+            let gps_time_changed = last_point.gps_time != current_point.gps_time
+                || last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From ea1a98e40f0e68dd9a7f7837645dcf7f015ea096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 16/40] fix: wave packets: large packet sizes and floats equal
 with different bytes

---
 src/las/wavepacket.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index cf6dadf..8e28b6f 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -294,7 +294,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
@@ -616,7 +616,6 @@ mod v3_v4 {
             current_point: &[u8],
             context: &mut usize,
         ) -> std::io::Result<()> {
-            let current_wavepacket = LasWavepacket::unpack_from(current_point);
             // Index of the last item used as prediction
             let mut last_idx = self.last_context;
 
@@ -635,7 +634,10 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            // The bytes are compared, as floats may be equal with different bytes
+            let mut last_bytes = [0u8; LasWavepacket::SIZE];
+            self.last_wavepackets[last_idx].pack_into(&mut last_bytes);
+            if last_bytes[..] != current_point[..LasWavepacket::SIZE] {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From 746d1bc933c0eb1ac202132a05f722f440888aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 17/40] fix: compressing in parallel with unsupported items is
 an error

---
 src/laszip/parallel/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 5dce203..4e8d4cc 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -372,7 +372,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
-- 
2.43.0


From 5ef9f1da5b795b7122498b68d587035de3a1a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 18/40] fix: overflow of the size of points of more than 65535
 bytes

---
 src/laszip/vlr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..ab1c76a 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -513,7 +513,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From 6c095551f1260fb5b141afaa667caa84a361ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 19/40] fix: refuse items that points cannot be made of

---
 src/laszip/details.rs | 31 +++++++++++++++++++++++++------
 src/laszip/vlr.rs     |  2 +-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..7b4de4a 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -6,13 +6,34 @@ use crate::record::{
 };
 use crate::{LasZipError, LazItem};
 
+/// Checks that points can be made of the items, and returns the first one of them
+fn check_items(items: &[LazItem]) -> crate::Result<&LazItem> {
+    let first_item = items.first().ok_or_else(|| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "There should be at least one LazItem",
+        )
+    })?;
+    if let Some(item) = items.iter().find(|i| i.size != i.item_type.size()) {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("{} is not the size of a {:?}", item.size, item.item_type),
+        )));
+    }
+    if items.iter().all(|item| item.size == 0) {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Points cannot be empty",
+        )));
+    }
+    Ok(first_item)
+}
+
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
 ) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordDecompressor");
+    let first_item = check_items(items)?;
 
     let mut decompressor = match first_item.version {
         1 | 2 => {
@@ -39,9 +60,7 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
 ) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordCompressor");
+    let first_item = check_items(items)?;
 
     let mut compressor = match first_item.version {
         1 | 2 => {
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index ab1c76a..8089647 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -89,7 +89,7 @@ impl LazItemType {
         }
     }
 
-    fn size(&self) -> u16 {
+    pub(crate) fn size(&self) -> u16 {
         match self {
             LazItemType::Byte(size) => *size,
             LazItemType::Point10 => Point0::SIZE as u16,
-- 
2.43.0


From 91e98205eb0af92966b5ba2012a6dce5f959a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 20/40] fix: number of extra bytes of the point formats with
 wave packets

---
 src/las/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..0e54473 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -57,14 +57,20 @@ impl QuickHeader {
     }
 
     pub fn num_extra_bytes(&self) -> u16 {
-        let point_size_wo_extra = match self.point_format_id {
+        let point_size_wo_extra = match point_format_id_compressed_to_uncompressd(
+            self.point_format_id,
+        ) {
             0 => 20,
             1 => 28,
             2 => 26,
             3 => 34,
+            4 => 57,
+            5 => 63,
             6 => 30,
             7 => 36,
             8 => 38,
+            9 => 59,
+            10 => 67,
             _ => panic!("Unknown fmt id"),
         };
 
-- 
2.43.0


From 7b575a349604aed21cab39fe788a7dbd5f11e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 21/40] fix: reading a file that is truncated or not valid is
 an error

---
 src/las/file.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 0e54473..e88a3ea 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -113,17 +113,28 @@ impl Vlr {
 }
 
 pub fn read_vlrs_and_get_laszip_vlr<R: Read>(src: &mut R, header: &QuickHeader) -> Option<LazVlr> {
+    try_read_vlrs_and_get_laszip_vlr(src, header).unwrap()
+}
+
+fn try_read_vlrs_and_get_laszip_vlr<R: Read>(
+    src: &mut R,
+    header: &QuickHeader,
+) -> std::io::Result<Option<LazVlr>> {
     let mut laszip_vlr = None;
     for _i in 0..header.num_vlrs {
-        let vlr = Vlr::read_from(src).unwrap();
+        let vlr = Vlr::read_from(src)?;
         if vlr.record_id == 22204
             && String::from_utf8_lossy(&vlr.user_id).trim_end_matches(|c| c as u8 == 0)
                 == "laszip encoded"
         {
-            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).unwrap());
+            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).map_err(invalid_data)?);
         }
     }
-    laszip_vlr
+    Ok(laszip_vlr)
+}
+
+fn invalid_data<E: Into<Box<dyn std::error::Error + Send + Sync>>>(error: E) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, error)
 }
 
 pub fn read_header_and_vlrs<R: Read + Seek>(
@@ -131,7 +142,7 @@ pub fn read_header_and_vlrs<R: Read + Seek>(
 ) -> std::io::Result<(QuickHeader, Option<LazVlr>)> {
     let hdr = QuickHeader::read_from(src)?;
     src.seek(SeekFrom::Start(hdr.header_size as u64))?;
-    let laz_vlr = read_vlrs_and_get_laszip_vlr(src, &hdr);
+    let laz_vlr = try_read_vlrs_and_get_laszip_vlr(src, &hdr)?;
     src.seek(SeekFrom::Start(hdr.offset_to_points as u64))?;
     Ok((hdr, laz_vlr))
 }
@@ -180,17 +191,18 @@ impl<'a> SimpleReader<'a> {
     pub fn new<R: Read + Seek + Send + Sync + 'a>(mut src: R) -> std::io::Result<Self> {
         let mut header = QuickHeader::read_from(&mut src)?;
         src.seek(SeekFrom::Start(header.header_size as u64))?;
-        let laszip_vlr = read_vlrs_and_get_laszip_vlr(&mut src, &header);
+        let laszip_vlr = try_read_vlrs_and_get_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
         let point_reader: Box<dyn LasPointReader> =
             if is_point_format_compressed(header.point_format_id) {
-                Box::new(
-                    LasZipDecompressor::new(
-                        src,
-                        laszip_vlr.expect("Compressed data, but no Laszip Vlr found"),
-                    )
-                    .unwrap(),
-                )
+                let laszip_vlr = laszip_vlr
+                    .ok_or_else(|| invalid_data("Compressed data, but no Laszip Vlr found"))?;
+                if laszip_vlr.items_size() != u64::from(header.point_size) {
+                    return Err(invalid_data(
+                        "The size of points of the header and of the Laszip Vlr differ",
+                    ));
+                }
+                Box::new(LasZipDecompressor::new(src, laszip_vlr).map_err(invalid_data)?)
             } else {
                 Box::new(RawPointReader { src })
             };
@@ -220,14 +232,9 @@ impl<'a> SimpleReader<'a> {
     pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
         assert!(buf.is_empty());
         let mut num_read = 0usize;
-        buf.resize(
-            self.header.num_points as usize * self.header.point_size as usize,
-            0u8,
-        );
-        let slc = buf.as_mut_slice();
+        // The number of points cannot be trusted until they have been read
         while let Some(point) = self.read_next() {
-            let point = point?;
-            slc[num_read * point.len()..(num_read + 1) * point.len()].copy_from_slice(point);
+            buf.extend_from_slice(point?);
             num_read += 1;
         }
         Ok(num_read)
-- 
2.43.0


From 79fb9a2587d3a02ac3513fe15c85d1f497f965ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 22/40] fix: interrupted appends left a chunk table with only
 the appended chunks

---
 src/laszip/parallel/appender.rs      | 36 ++++--------------------
 src/laszip/parallel/compression.rs   | 19 +++++++------
 src/laszip/sequential/appender.rs    | 41 +++++++---------------------
 src/laszip/sequential/compression.rs | 21 ++++++--------
 4 files changed, 34 insertions(+), 83 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 27b7463..0ff29c0 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -1,12 +1,10 @@
 use crate::laszip::sequential::appender::prepare_compressor_for_appending;
-use crate::laszip::ChunkTable;
 use crate::{LazVlr, ParLasZipCompressor};
 use rayon::iter::IntoParallelIterator;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Read, Seek, Write};
 
 /// Struct that handles appending compressed points to a LAZ file in parallel
 pub struct ParLasZipAppender<W> {
-    saved_chunk_table: ChunkTable,
     compressor: ParLasZipCompressor<W>,
 }
 
@@ -16,13 +14,13 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            |compressor, pos, points| {
-                compressor.get_mut().seek(SeekFrom::Start(pos))?;
+            |compressor, pos, chunk_table, points| {
+                compressor.start_chunk_at(pos, chunk_table)?;
                 if compressor.vlr().uses_variable_size_chunks() {
                     compressor.compress_chunks([points])
                 } else {
@@ -31,10 +29,7 @@ where
             },
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -43,26 +38,7 @@ where
     /// - Writes the chunk table
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
-        self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
-        Ok(())
+        self.compressor.done()
     }
 
     pub fn get_mut(&mut self) -> &mut W {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 4e8d4cc..27b2f2e 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -221,15 +221,16 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         &self.dest
     }
 
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.table_offset
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
+    /// Moves the destination, so that the next chunk starts at the given position,
+    /// after the chunks of the given table
+    pub(crate) fn start_chunk_at(
+        &mut self,
+        pos: u64,
+        chunk_table: ChunkTable,
+    ) -> std::io::Result<()> {
+        self.dest.seek(SeekFrom::Start(pos))?;
+        self.chunk_table = chunk_table;
+        Ok(())
     }
 }
 
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 97479cc..9cbd283 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -16,19 +16,19 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 ///   the function will stop at when we know for sure no other points
 ///   could be present
 ///
-/// `resume_at` must move the compressor to the position it is given and
-/// compress the points it is given (if any).
+/// `resume_at` must move the compressor to the position it is given, make it continue
+/// the chunk table it is given, and compress the points it is given (if any).
 pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
     resume_at: F2,
-) -> crate::Result<(Compressor, ChunkTable)>
+) -> crate::Result<Compressor>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor, u64, &[u8]) -> std::io::Result<()>,
+    F2: FnOnce(&mut Compressor, u64, ChunkTable, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -112,15 +112,15 @@ where
     resume_at(
         &mut compressor,
         start_of_points + last_chunk_pos,
+        chunk_table,
         &data_to_recompress,
     )?;
 
-    Ok((compressor, chunk_table))
+    Ok(compressor)
 }
 
 /// Struct that handles appending compressed points to a LAZ file.
 pub struct LasZipAppender<'a, W: Write + Send + 'a> {
-    saved_chunk_table: ChunkTable,
     compressor: LasZipCompressor<'a, W>,
 }
 
@@ -130,21 +130,18 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
             LasZipCompressor::new,
-            |compressor, pos, points| {
-                compressor.start_chunk_at(pos)?;
+            |compressor, pos, chunk_table, points| {
+                compressor.start_chunk_at(pos, chunk_table)?;
                 compressor.compress_many(points)
             },
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -154,24 +151,6 @@ where
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
         self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
         Ok(())
     }
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 576360c..01681ce 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -202,23 +202,18 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.record_compressor.get()
     }
 
-    /// Moves the destination, so that the next chunk starts at the given position
-    pub(crate) fn start_chunk_at(&mut self, pos: u64) -> std::io::Result<()> {
+    /// Moves the destination, so that the next chunk starts at the given position,
+    /// after the chunks of the given table
+    pub(crate) fn start_chunk_at(
+        &mut self,
+        pos: u64,
+        chunk_table: ChunkTable,
+    ) -> std::io::Result<()> {
         self.chunk_start_pos = self.get_mut().seek(SeekFrom::Start(pos))?;
+        self.chunk_table = chunk_table;
         Ok(())
     }
 
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.start_pos as i64
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
-    }
-
     #[inline]
     fn update_chunk_table(&mut self) -> std::io::Result<()> {
         let current_pos = self
-- 
2.43.0


From 96b28049bb9e6cd9fad3142a7d1d6b3237047c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 23/40] fix: the offset to the chunk table is written once the
 chunk table is

---
 src/laszip/chunk_table.rs            | 20 +++++++++++++-------
 src/laszip/parallel/compression.rs   | 13 ++++++++-----
 src/laszip/sequential/compression.rs |  8 ++++++--
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 91c2873..9c175cf 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -332,27 +332,33 @@ where
     }
 }
 
-/// Updates the 'chunk table offset'
+/// Writes the chunk table, then updates the 'chunk table offset'
 ///
-/// It is the first 8 byte (i64) of a Laszip compressed data
+/// The offset is the first 8 byte (i64) of a Laszip compressed data, it is written last:
+/// should the writing be interrupted, the offset never points to something that is not
+/// a complete chunk table.
 ///
-/// This function expects the position of the destination to be at the start of the chunk_table
-/// (whether it is written or not).
+/// This function expects the position of the destination to be where the chunk table
+/// is to be written
 ///
 /// This function also expects the i64 to have been already written/reserved
 /// (even if its garbage bytes / 0s)
 ///
-/// The position of the destination is untouched
+/// The destination is left at the end of the chunk table.
 ///
 /// `offset_pos`: position the function have to seek to, to be where the offset
 ///               should be updated.
-pub(super) fn update_chunk_table_offset<W: Write + Seek>(
+pub(super) fn write_chunk_table_and_offset<W: Write + Seek>(
     dst: &mut W,
+    chunk_table: &ChunkTable,
+    vlr: &LazVlr,
     offset_pos: SeekFrom,
 ) -> std::io::Result<()> {
     let start_of_chunk_table_pos = dst.seek(SeekFrom::Current(0))?;
+    chunk_table.write_to(&mut *dst, vlr)?;
+    let end_of_chunk_table_pos = dst.seek(SeekFrom::Current(0))?;
     dst.seek(offset_pos)?;
     dst.write_i64::<LittleEndian>(start_of_chunk_table_pos as i64)?;
-    dst.seek(SeekFrom::Start(start_of_chunk_table_pos))?;
+    dst.seek(SeekFrom::Start(end_of_chunk_table_pos))?;
     Ok(())
 }
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 27b2f2e..17425e4 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -3,7 +3,7 @@ use std::io::{Seek, SeekFrom, Write};
 use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
-use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTableEntry};
+use crate::laszip::chunk_table::{write_chunk_table_and_offset, ChunkTable, ChunkTableEntry};
 use crate::laszip::details::record_compressor_from_laz_items;
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
@@ -200,8 +200,12 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
             // No call to compress_many was made
             self.reserve_offset_to_chunk_table()?;
         }
-        update_chunk_table_offset(&mut self.dest, SeekFrom::Start(self.table_offset as u64))?;
-        self.chunk_table.write_to(&mut self.dest, &self.vlr)?;
+        write_chunk_table_and_offset(
+            &mut self.dest,
+            &self.chunk_table,
+            &self.vlr,
+            SeekFrom::Start(self.table_offset as u64),
+        )?;
         Ok(())
     }
 
@@ -290,8 +294,7 @@ pub fn par_compress_buffer<W: Write + Seek>(
 
     let chunk_table = par_compress(dst, uncompressed_points, laz_vlr)?;
 
-    update_chunk_table_offset(dst, SeekFrom::Start(start_pos))?;
-    chunk_table.write_to(dst, laz_vlr)?;
+    write_chunk_table_and_offset(dst, &chunk_table, laz_vlr, SeekFrom::Start(start_pos))?;
     Ok(())
 }
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 01681ce..3a8be8c 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -143,8 +143,12 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
             self.update_chunk_table()?;
         }
         let stream = self.record_compressor.get_mut();
-        chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
-        self.chunk_table.write_to(stream, &self.vlr)?;
+        chunk_table::write_chunk_table_and_offset(
+            stream,
+            &self.chunk_table,
+            &self.vlr,
+            SeekFrom::Start(self.start_pos),
+        )?;
         Ok(())
     }
 
-- 
2.43.0


From 9012136d8396429c7fb7b9b683da81c2b69fef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 24/40] fix: decoding again after an error of the source
 panicked

---
 src/decoders.rs | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..c97f1d8 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -99,6 +99,13 @@ pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
 // maximum AC interval length
 pub const AC_MIN_LENGTH: u32 = 0x0100_0000;
 
+fn zero_length_error() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::UnexpectedEof,
+        "ArithmeticDecoder length is zero",
+    )
+}
+
 pub struct ArithmeticDecoder<T: Read> {
     in_stream: T,
     value: u32,
@@ -160,10 +167,7 @@ impl<T: Read> ArithmeticDecoder<T> {
             // use table look-up for faster decoding
             self.length >>= DM_LENGTH_SHIFT;
             if self.length == 0 {
-                return Err(std::io::Error::new(
-                    std::io::ErrorKind::UnexpectedEof,
-                    "ArithmeticDecoder length is zero",
-                ));
+                return Err(zero_length_error());
             }
             let dv = self.value / self.length;
             let t = dv >> model.table_shift;
@@ -226,7 +230,10 @@ impl<T: Read> ArithmeticDecoder<T> {
     pub fn read_bit(&mut self) -> std::io::Result<u32> {
         // decode symbol, change length
         self.length >>= 1;
-        let sym = self.value / self.length;
+        let sym = self
+            .value
+            .checked_div(self.length)
+            .ok_or_else(zero_length_error)?;
         // update interval
         self.value -= self.length * sym;
 
@@ -246,7 +253,10 @@ impl<T: Read> ArithmeticDecoder<T> {
         } else {
             // decode symbol, change length
             self.length >>= bits;
-            let sym = self.value / self.length;
+            let sym = self
+                .value
+                .checked_div(self.length)
+                .ok_or_else(zero_length_error)?;
 
             // update interval
             self.value -= self.length * sym;
@@ -262,7 +272,10 @@ impl<T: Read> ArithmeticDecoder<T> {
     fn read_byte(&mut self) -> std::io::Result<u8> {
         // decode symbol, change length
         self.length >>= 8;
-        let sym = self.value / self.length;
+        let sym = self
+            .value
+            .checked_div(self.length)
+            .ok_or_else(zero_length_error)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
@@ -275,7 +288,10 @@ impl<T: Read> ArithmeticDecoder<T> {
     fn read_short(&mut self) -> std::io::Result<u16> {
         // decode symbol, change length
         self.length >>= 16;
-        let sym = self.value / self.length;
+        let sym = self
+            .value
+            .checked_div(self.length)
+            .ok_or_else(zero_length_error)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
@@ -298,8 +314,18 @@ impl<T: Read> ArithmeticDecoder<T> {
     }
 
     fn renorm_dec_interval(&mut self) -> std::io::Result<()> {
+        if self.length == 0 {
+            return Err(zero_length_error());
+        }
         loop {
-            self.value = (self.value << 8) | u32::from(self.in_stream.read_u8()?);
+            match self.in_stream.read_u8() {
+                Ok(byte) => self.value = (self.value << 8) | u32::from(byte),
+                Err(err) => {
+                    // The interval is unusable from now on (until reset)
+                    self.length = 0;
+                    return Err(err);
+                }
+            }
             self.length <<= 8;
             if self.length >= AC_MIN_LENGTH {
                 break;
-- 
2.43.0


From 9a788007db967ef16915106545dd825f93d62b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 25/40] fix: data no encoder writes made the arithmetic decoder
 panic

---
 src/decoders.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index c97f1d8..b2d8a46 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -106,6 +106,13 @@ fn zero_length_error() -> std::io::Error {
     )
 }
 
+fn invalid_data_error() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        "The data was not produced by an arithmetic encoder",
+    )
+}
+
 pub struct ArithmeticDecoder<T: Read> {
     in_stream: T,
     value: u32,
@@ -132,6 +139,10 @@ impl<T: Read> ArithmeticDecoder<T> {
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        // The value is always in [0, length[
+        if self.value >= AC_MAX_LENGTH {
+            return Err(invalid_data_error());
+        }
         Ok(())
     }
 
@@ -281,7 +292,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
+        if sym >= (1 << 8) {
+            return Err(invalid_data_error());
+        }
         Ok(sym as u8)
     }
 
@@ -297,7 +310,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
+        if sym >= (1 << 16) {
+            return Err(invalid_data_error());
+        }
         Ok(sym as u16)
     }
 
-- 
2.43.0


From d5a5b60450eec84a054f6fc096a36196b6b8e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 26/40] fix: a chunk table that cannot be one was trusted
 (allocations of any size)

---
 src/laszip/chunk_table.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 9c175cf..5f4ce4f 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -80,6 +80,7 @@ impl ChunkTable {
             Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
         src.seek(SeekFrom::Start(chunk_table_start))?;
         let chunk_table = Self::read(&mut src, true)?;
+        chunk_table.check_fits_between(data_start, chunk_table_start)?;
         src.seek(SeekFrom::Start(data_start + 8))?;
         Ok(chunk_table)
     }
@@ -93,6 +94,7 @@ impl ChunkTable {
             Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
         src.seek(SeekFrom::Start(chunk_table_start))?;
         let mut chunk_table = Self::read(&mut src, false)?;
+        chunk_table.check_fits_between(data_start, chunk_table_start)?;
         src.seek(SeekFrom::Start(data_start + 8))?;
 
         for entry in &mut chunk_table.0 {
@@ -101,6 +103,18 @@ impl ChunkTable {
         Ok(chunk_table)
     }
 
+    /// Checks that the chunks listed can be between the start of the data and the table
+    fn check_fits_between(&self, data_start: u64, chunk_table_start: u64) -> std::io::Result<()> {
+        let num_bytes = self.0.iter().map(|entry| entry.byte_count).sum::<u64>();
+        if num_bytes > chunk_table_start.saturating_sub(data_start + Self::OFFSET_SIZE as u64) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "the chunk table lists more bytes than there are before it",
+            ));
+        }
+        Ok(())
+    }
+
     /// Reads the offset to the chunk table.
     ///
     /// `src` should be at the start of LAZ data.
@@ -137,7 +151,13 @@ impl ChunkTable {
         mut src: &mut R,
         contains_point_count: bool,
     ) -> std::io::Result<Self> {
-        let _version = src.read_u32::<LittleEndian>()?;
+        let version = src.read_u32::<LittleEndian>()?;
+        if version != 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!("unknown chunk table version: {}", version),
+            ));
+        }
         let number_of_chunks = src.read_u32::<LittleEndian>()?;
 
         if number_of_chunks == 0 {
-- 
2.43.0


From bd8a7575696c1297fb0f6bf2c7c9cd63f32375c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 27/40] fix: layer sizes of a damaged chunk were trusted
 (allocations of any size)

---
 src/las/utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..bad4684 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -174,8 +174,14 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            // The size cannot be trusted until that many bytes were read
+            inner_vec.clear();
+            src.by_ref()
+                .take(num_bytes as u64)
+                .read_to_end(inner_vec)?;
+            if inner_vec.len() < num_bytes {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +194,13 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let num_skipped = std::io::copy(
+                    &mut src.by_ref().take(num_bytes as u64),
+                    &mut std::io::sink(),
+                )?;
+                if num_skipped < num_bytes as u64 {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From 93e74c201e2b233cb87455d1672af6289cce1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 28/40] fix: compressing again after an error of the
 destination panicked

---
 src/laszip/parallel/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 17425e4..31fac28 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -108,7 +108,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         debug_assert_eq!(self.rest.len() % point_size, 0);
 
         let chunk_size_in_bytes = self.vlr.chunk_size() as usize * point_size;
-        debug_assert!(self.rest.len() < chunk_size_in_bytes);
+        // It is still full if a previous call failed to compress it
+        debug_assert!(self.rest.len() <= chunk_size_in_bytes);
         let mut compressible_buf = points;
 
         if self.rest.len() != 0 {
-- 
2.43.0


From 10c8db2e412df2ff220b06230d7d14fe6b6a1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 29/40] fix: refuse what is not supported when compressing and
 decompressing in parallel

The functions working on buffers did not look at the type of compressor, and items that
cannot be compressed were only noticed with the first points, or panicked (no items).
---
 src/laszip/details.rs                  | 16 ++++++++++++++++
 src/laszip/parallel/compression.rs     | 14 ++++++--------
 src/laszip/parallel/decompression.rs   | 11 ++++-------
 src/laszip/sequential/compression.rs   |  5 ++++-
 src/laszip/sequential/decompression.rs |  5 ++++-
 5 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 7b4de4a..4456367 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -4,6 +4,10 @@ use crate::record::{
     LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor,
     RecordDecompressor, SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
 };
+#[cfg(feature = "parallel")]
+use crate::laszip::CompressorType;
+#[cfg(feature = "parallel")]
+use crate::LazVlr;
 use crate::{LasZipError, LazItem};
 
 /// Checks that points can be made of the items, and returns the first one of them
@@ -29,6 +33,18 @@ fn check_items(items: &[LazItem]) -> crate::Result<&LazItem> {
     Ok(first_item)
 }
 
+/// Checks that chunks of points can be compressed, and decompressed, as described by the vlr
+#[cfg(feature = "parallel")]
+pub(super) fn check_supports_chunks_of(vlr: &LazVlr) -> crate::Result<()> {
+    if vlr.compressor != CompressorType::PointWiseChunked
+        && vlr.compressor != CompressorType::LayeredChunked
+    {
+        return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
+    }
+    record_compressor_from_laz_items(vlr.items(), std::io::sink())?;
+    Ok(())
+}
+
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 31fac28..ed0bf84 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -4,9 +4,9 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
 use crate::laszip::chunk_table::{write_chunk_table_and_offset, ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_compressor_from_laz_items;
-use crate::laszip::{CompressorType, DecompressedChunkSize};
-use crate::{LasZipError, LazVlr};
+use crate::laszip::details::{check_supports_chunks_of, record_compressor_from_laz_items};
+use crate::laszip::DecompressedChunkSize;
+use crate::LazVlr;
 
 /// LasZip compressor that compresses using multiple threads
 ///
@@ -55,11 +55,7 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
     ///
     /// No i/o operation are performed
     pub fn new(dest: W, vlr: LazVlr) -> crate::Result<Self> {
-        if vlr.compressor != CompressorType::PointWiseChunked
-            && vlr.compressor != CompressorType::LayeredChunked
-        {
-            return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
-        }
+        check_supports_chunks_of(&vlr)?;
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
@@ -289,6 +285,7 @@ pub fn par_compress_buffer<W: Write + Seek>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
+    check_supports_chunks_of(laz_vlr)?;
     let start_pos = dst.seek(SeekFrom::Current(0))?;
     // Reserve the bytes for the chunk table offset that will be updated later
     dst.write_i64::<LittleEndian>(start_pos as i64)?;
@@ -311,6 +308,7 @@ pub fn par_compress<W: Write>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<ChunkTable> {
+    check_supports_chunks_of(laz_vlr)?;
     debug_assert!(!laz_vlr.uses_variable_size_chunks());
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
 
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index be48bce..e56d81a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -5,8 +5,7 @@ use rayon::prelude::*;
 use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_decompressor_from_laz_items;
-use crate::laszip::CompressorType;
+use crate::laszip::details::{check_supports_chunks_of, record_decompressor_from_laz_items};
 use crate::{LasZipError, LazVlr};
 
 /// Laszip decompressor, that can decompress data using multiple threads
@@ -54,11 +53,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
     ) -> crate::Result<Self> {
         // Technically we could support PointWise compressor
         // But it's old and rare so not much point to do so
-        if vlr.compressor != CompressorType::PointWiseChunked
-            && vlr.compressor != CompressorType::LayeredChunked
-        {
-            return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
-        }
+        check_supports_chunks_of(&vlr)?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
         let biggest_chunk = chunk_table
@@ -325,6 +320,7 @@ pub fn par_decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
+    check_supports_chunks_of(laz_vlr)?;
     debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let mut cursor = std::io::Cursor::new(compressed_points_data);
     let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
@@ -362,6 +358,7 @@ pub fn par_decompress_selective(
     selection: DecompressionSelection,
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
+    check_supports_chunks_of(laz_vlr)?;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
     // The last chunk of fixed-size chunks may have less points than its entry says,
     // and the caller may not want all the points.
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 3a8be8c..fbca45a 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -301,8 +301,11 @@ pub fn compress_buffer<W: Write + Seek + Send + Sync>(
     uncompressed_points: &[u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
-    debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let mut compressor = LasZipCompressor::new(dst, laz_vlr)?;
+    debug_assert_eq!(
+        uncompressed_points.len() % compressor.vlr().items_size() as usize,
+        0
+    );
     compressor.compress_many(uncompressed_points)?;
     compressor.done()?;
     Ok(())
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 42f6ecd..c653830 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -369,9 +369,12 @@ pub fn decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
-    debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let src = std::io::Cursor::new(compressed_points_data);
     LasZipDecompressor::new(src, laz_vlr).and_then(|mut decompressor| {
+        debug_assert_eq!(
+            decompressed_points.len() % decompressor.vlr.items_size() as usize,
+            0
+        );
         decompressor.decompress_many(decompressed_points)?;
         Ok(())
     })
-- 
2.43.0


From 0f41279378e74dc3fa3c5ef5cde9bbd9c7572272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 30/40] fix: memory used by big chunk sizes, whatever the
 number of points

A (valid) chunk size close to the maximum made compressing and decompressing in parallel
allocate memory for that many points, and abort.
---
 src/laszip/parallel/compression.rs   |  3 +-
 src/laszip/parallel/decompression.rs | 48 ++++++++++++++++++----------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index ed0bf84..346be3b 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -59,7 +59,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
-            rest.reserve(num_bytes);
+            // Chunks may be (much) bigger than the points that are going to be compressed
+            let _ = rest.try_reserve(num_bytes);
         }
 
         Ok(Self {
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index e56d81a..5d03365 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -6,6 +6,7 @@ use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
 use crate::laszip::details::{check_supports_chunks_of, record_decompressor_from_laz_items};
+use crate::record::RecordDecompressor;
 use crate::{LasZipError, LazVlr};
 
 /// Laszip decompressor, that can decompress data using multiple threads
@@ -56,14 +57,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         check_supports_chunks_of(&vlr)?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
-        let biggest_chunk = chunk_table
-            .as_ref()
-            .into_iter()
-            .map(|entry| entry.point_count)
-            .max()
-            .unwrap_or(0);
-        let vec = Vec::<u8>::with_capacity(biggest_chunk as usize);
-        let rest = std::io::Cursor::new(vec);
+        let rest = std::io::Cursor::new(vec![]);
 
         Ok(Self {
             source,
@@ -192,10 +186,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
                     // When fixed-size chunks are used, for the last chunk, the number of point
                     // is unknown, so we have to decompress it until an end of file appears
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    let num_actually_decompressed =
-                        decompressor.decompress_until_end_of_file(rest.get_mut())?;
-                    rest.get_mut().resize(num_actually_decompressed, 0u8);
+                    decompress_last_points(&mut *decompressor, rest.get_mut(), num_bytes_left)?;
                 } else {
                     rest.get_mut().resize(num_bytes_left, 0u8);
                     decompressor.decompress_many(rest.get_mut())?;
@@ -247,7 +238,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 num_bytes_per_point,
             } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
         };
-        self.rest.get_mut().resize(num_bytes, 0u8);
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
@@ -255,10 +245,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
-            let num_bytes_decompressed =
-                decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            self.rest.get_mut().resize(num_bytes_decompressed, 0u8);
+            decompress_last_points(&mut *decompressor, self.rest.get_mut(), num_bytes)?;
+            let num_points_in_last_chunk =
+                self.rest.get_ref().len() / self.vlr.items_size() as usize;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
                 // force EOF error on next decompression
@@ -267,6 +256,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 return Ok(());
             }
         } else {
+            self.rest.get_mut().resize(num_bytes, 0u8);
             decompressor.decompress_many(self.rest.get_mut())?;
         }
         // This effectively discard points that were
@@ -303,6 +293,30 @@ impl<R: Read + Seek> crate::laszip::LazDecompressor for ParLasZipDecompressor<R>
     }
 }
 
+/// Decompresses points of the last chunk, until its end or until there are `max_num_bytes` bytes.
+///
+/// The last chunk may contain (much) less points than what the chunk size says.
+fn decompress_last_points<R: Read>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    points: &mut Vec<u8>,
+    max_num_bytes: usize,
+) -> std::io::Result<()> {
+    const NUM_POINTS_AT_ONCE: usize = 50_000;
+    let num_bytes_at_once = NUM_POINTS_AT_ONCE * decompressor.record_size();
+    points.clear();
+    while points.len() < max_num_bytes {
+        let start = points.len();
+        let num_bytes = (max_num_bytes - start).min(num_bytes_at_once);
+        points.resize(start + num_bytes, 0u8);
+        let num_decompressed = decompressor.decompress_until_end_of_file(&mut points[start..])?;
+        if num_decompressed < num_bytes {
+            points.truncate(start + num_decompressed);
+            break;
+        }
+    }
+    Ok(())
+}
+
 /// Decompresses all points from the buffer in parallel.
 ///
 /// Each chunk is sent for decompression in a thread.
-- 
2.43.0


From 31b6c1ed35425110bdf638b1feb4b330909e0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 31/40] fix: items of point formats with wave packets: LASzip
 has no version 2 of them

---
 src/las/pointtypes.rs | 22 +++++++++++-----------
 src/laszip/vlr.rs     |  3 ++-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/las/pointtypes.rs b/src/las/pointtypes.rs
index e3e88ac..38c4f36 100644
--- a/src/las/pointtypes.rs
+++ b/src/las/pointtypes.rs
@@ -339,11 +339,11 @@ impl Version2 for Point4 {
     fn version_2(num_extra_bytes: u16) -> Vec<LazItem> {
         vec_of_laz_items!(
             vec_capacity: 4,
-            version: 2,
-            extra_bytes_type: LazItemType::Byte(num_extra_bytes),
-            LazItemType::Point10,
-            LazItemType::GpsTime,
-            LazItemType::WavePacket13
+            extra_bytes_type: LazItemType::Byte(num_extra_bytes), version: 2,
+            LazItemType::Point10, version: 2,
+            LazItemType::GpsTime, version: 2,
+            // there is no version 2 of the wave packets
+            LazItemType::WavePacket13, version: 1
         )
     }
 }
@@ -402,12 +402,12 @@ impl Version2 for Point5 {
     fn version_2(num_extra_bytes: u16) -> Vec<LazItem> {
         vec_of_laz_items!(
             vec_capacity: 5,
-            version: 2,
-            extra_bytes_type: LazItemType::Byte(num_extra_bytes),
-            LazItemType::Point10,
-            LazItemType::GpsTime,
-            LazItemType::RGB12,
-            LazItemType::WavePacket13
+            extra_bytes_type: LazItemType::Byte(num_extra_bytes), version: 2,
+            LazItemType::Point10, version: 2,
+            LazItemType::GpsTime, version: 2,
+            LazItemType::RGB12, version: 2,
+            // there is no version 2 of the wave packets
+            LazItemType::WavePacket13, version: 1
         )
     }
 }
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 8089647..efdb3e3 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -110,7 +110,8 @@ impl LazItemType {
             LazItemType::Point10 => 2,
             LazItemType::GpsTime => 2,
             LazItemType::RGB12 => 2,
-            LazItemType::WavePacket13 => 2,
+            // LASzip has no version 2 of it
+            LazItemType::WavePacket13 => 1,
             LazItemType::Point14 => 3,
             LazItemType::RGB14 => 3,
             LazItemType::RGBNIR14 => 3,
-- 
2.43.0


From c539c5482ba357ad69f35cc8bb7960721eb33eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 32/40] fix: memory used at once when decompressing the last
 chunk of big points

---
 src/laszip/parallel/decompression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 5d03365..6a54668 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -301,8 +301,9 @@ fn decompress_last_points<R: Read>(
     points: &mut Vec<u8>,
     max_num_bytes: usize,
 ) -> std::io::Result<()> {
-    const NUM_POINTS_AT_ONCE: usize = 50_000;
-    let num_bytes_at_once = NUM_POINTS_AT_ONCE * decompressor.record_size();
+    const MAX_NUM_BYTES_AT_ONCE: usize = 1 << 20;
+    let record_size = decompressor.record_size().max(1);
+    let num_bytes_at_once = (MAX_NUM_BYTES_AT_ONCE / record_size).max(1) * record_size;
     points.clear();
     while points.len() < max_num_bytes {
         let start = points.len();
-- 
2.43.0


From 1402b681217873970be552c01732d0d572b287c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 33/40] fix: unchunked point-wise data whose chunk size is 0
 panicked

---
 src/laszip/sequential/decompression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index c653830..a82cb33 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -172,7 +172,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
+            if self.vlr.compressor == CompressorType::PointWise {
+                self.num_points_in_chunk = u64::from(u32::MAX);
+            } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
                     (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
                     (None, CompressorType::LayeredChunked) => {
@@ -184,8 +186,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         panic!("Variable-size chunks, but no chunk table");
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From 337e6470aa76c7effd5a528f79a82cc2248c57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 34/40] fix: extra bytes of version 1 were not compressed the
 way LASzip does

---
 src/las/extra_bytes.rs | 103 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 100 insertions(+), 3 deletions(-)

diff --git a/src/las/extra_bytes.rs b/src/las/extra_bytes.rs
index 51a3038..e506755 100644
--- a/src/las/extra_bytes.rs
+++ b/src/las/extra_bytes.rs
@@ -26,9 +26,6 @@
 */
 //! Defines the different version of compressors and decompressors for ExtraBytes contained in points
 
-/// Just re-export v1 as v2 as they are both the same implementation
-pub use v1 as v2;
-
 pub trait LasExtraBytes {
     fn extra_bytes(&self) -> &[u8];
     fn set_extra_bytes(&mut self, extra_bytes: &[u8]);
@@ -65,6 +62,106 @@ impl LasExtraBytes for ExtraBytes {
 }
 
 pub mod v1 {
+    //! Each extra byte is compressed as a 8 bits integer, predicted to be
+    //! the same as the one of the previous point, in its own context.
+    use std::io::{Read, Write};
+
+    use crate::compressors::{IntegerCompressor, IntegerCompressorBuilder};
+    use crate::decoders::ArithmeticDecoder;
+    use crate::decompressors::{IntegerDecompressor, IntegerDecompressorBuilder};
+    use crate::encoders::ArithmeticEncoder;
+    use crate::record::{FieldCompressor, FieldDecompressor};
+
+    pub struct LasExtraByteCompressor {
+        last_bytes: Vec<u8>,
+        ic_bytes: IntegerCompressor,
+    }
+
+    impl LasExtraByteCompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_bytes: IntegerCompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<W: Write> FieldCompressor<W> for LasExtraByteCompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn compress_first(&mut self, dst: &mut W, buf: &[u8]) -> std::io::Result<()> {
+            self.last_bytes.copy_from_slice(buf);
+            dst.write_all(buf)
+        }
+
+        fn compress_with(
+            &mut self,
+            encoder: &mut ArithmeticEncoder<W>,
+            buf: &[u8],
+        ) -> std::io::Result<()> {
+            for (i, (last, current)) in self.last_bytes.iter_mut().zip(buf).enumerate() {
+                self.ic_bytes.compress(
+                    encoder,
+                    i32::from(*last),
+                    i32::from(*current),
+                    i as u32,
+                )?;
+                *last = *current;
+            }
+            Ok(())
+        }
+    }
+
+    pub struct LasExtraByteDecompressor {
+        last_bytes: Vec<u8>,
+        ic_bytes: IntegerDecompressor,
+    }
+
+    impl LasExtraByteDecompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_bytes: IntegerDecompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<R: Read> FieldDecompressor<R> for LasExtraByteDecompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            src.read_exact(first_point)?;
+            self.last_bytes.copy_from_slice(first_point);
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            for (i, last) in self.last_bytes.iter_mut().enumerate() {
+                *last = self
+                    .ic_bytes
+                    .decompress(decoder, i32::from(*last), i as u32)? as u8;
+            }
+            buf.copy_from_slice(&self.last_bytes);
+            Ok(())
+        }
+    }
+}
+
+pub mod v2 {
     //! The Algorithm is simple:
     //! encode the difference between byte for each extra bytes
     use std::io::{Read, Write};
-- 
2.43.0


From 492086cfe26ab79b0669774117bcc1572eb6f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 35/40] fix: carries going through more bytes than the encoder
 keeps gave wrong data

---
 src/encoders.rs | 61 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..f5ecd3c 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -101,6 +101,13 @@ pub struct ArithmeticEncoder<T: Write> {
     out_byte: *mut u8,
     end_byte: *const u8,
 
+    /// Number of full buffers of 0xFF bytes, located between the previous buffer
+    /// and the current one, that are not written yet as a carry can still
+    /// change them (and the previous buffer)
+    held_buffers: usize,
+    /// Value of the bytes of the held buffers, a carry turns them to 0
+    held_byte: u8,
+
     base: u32,
     length: u32,
 
@@ -118,6 +125,8 @@ impl<T: Write> ArithmeticEncoder<T> {
             out_buffer,
             out_byte,
             end_byte,
+            held_buffers: 0,
+            held_byte: 0xFF,
             base: 0,
             length: decoders::AC_MAX_LENGTH,
             out_stream,
@@ -135,6 +144,8 @@ impl<T: Write> ArithmeticEncoder<T> {
         self.out_buffer.fill(0);
         self.out_byte = self.out_buffer.as_mut_ptr();
         self.end_byte = self.end_of_buffer();
+        self.held_buffers = 0;
+        self.held_byte = 0xFF;
     }
 
     pub fn done(&mut self) -> std::io::Result<()> {
@@ -172,11 +183,19 @@ impl<T: Write> ArithmeticEncoder<T> {
                 )
             };
             self.out_stream.write_all(&slc)?;
+            self.write_held_buffers()?;
         }
 
+        let mut buffer_start = 0;
         let buffer_size = self.out_byte as isize - self.out_buffer.as_ptr() as isize;
+        if self.held_buffers != 0 {
+            self.out_stream
+                .write_all(&self.out_buffer[..AC_BUFFER_SIZE])?;
+            self.write_held_buffers()?;
+            buffer_start = AC_BUFFER_SIZE;
+        }
         if buffer_size != 0 {
-            let slc = &self.out_buffer[..buffer_size as usize];
+            let slc = &self.out_buffer[buffer_start..buffer_size as usize];
             self.out_stream.write_all(&slc)?
         }
 
@@ -365,15 +384,15 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     fn propagate_carry(&mut self) {
-        let mut p = if self.out_byte.cast_const() == self.out_buffer.as_ptr() {
-            self.end_of_buffer().wrapping_sub(1).cast_mut()
-        } else {
-            self.out_byte.wrapping_sub(1)
-        };
+        let buffer_start = self.end_byte.wrapping_sub(AC_BUFFER_SIZE);
+        let mut p = self.out_byte;
 
         unsafe {
-            while *p == 0xFFu8 {
-                *p = 0;
+            loop {
+                if p.cast_const() == buffer_start {
+                    // the carry leaves the current buffer
+                    self.held_byte = 0;
+                }
                 if p.cast_const() == self.out_buffer.as_ptr() {
                     p = self.end_of_buffer().wrapping_sub(1).cast_mut()
                 } else {
@@ -382,6 +401,10 @@ impl<T: Write> ArithmeticEncoder<T> {
                 debug_assert!(self.out_buffer.as_ptr() <= p);
                 debug_assert!(p.cast_const() < self.end_of_buffer());
                 debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
+                if *p != 0xFFu8 {
+                    break;
+                }
+                *p = 0;
             }
             *p += 1;
         }
@@ -412,18 +435,40 @@ impl<T: Write> ArithmeticEncoder<T> {
     fn manage_out_buffer(&mut self) -> std::io::Result<()> {
         debug_assert!(self.out_byte.cast_const() == self.end_byte);
 
+        let filled = self.out_byte.wrapping_sub(AC_BUFFER_SIZE);
+        let slc = unsafe { std::slice::from_raw_parts(filled, AC_BUFFER_SIZE) };
+        let carried = self.held_buffers != 0 && self.held_byte == 0;
+        if !carried && slc.iter().all(|byte| *byte == 0xFFu8) {
+            // A carry would go through the whole buffer, up to the
+            // previous one, which thus cannot be written yet
+            self.held_buffers += 1;
+            self.held_byte = 0xFF;
+            self.out_byte = filled;
+            return Ok(());
+        }
+
         if self.out_byte.cast_const() == self.end_of_buffer() {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
 
         let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
         self.out_stream.write_all(slc)?;
+        self.write_held_buffers()?;
         self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
         debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
         Ok(())
     }
+
+    fn write_held_buffers(&mut self) -> std::io::Result<()> {
+        while self.held_buffers != 0 {
+            self.out_stream
+                .write_all(&[self.held_byte; AC_BUFFER_SIZE])?;
+            self.held_buffers -= 1;
+        }
+        Ok(())
+    }
 }
 
 unsafe impl<T: Write + Send> Send for ArithmeticEncoder<T> {}
-- 
2.43.0


From ee896cb9ed8653809adc67b24e8dc47431d90113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 36/40] fix: write_bits of 32 bits panicked in builds with
 debug assertions

---
 src/encoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index f5ecd3c..063b473 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -300,7 +300,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     pub fn write_bits(&mut self, mut bits: u32, mut sym: u32) -> std::io::Result<()> {
-        debug_assert!(bits <= 32 && sym < (1u32 << bits));
+        debug_assert!(bits <= 32 && u64::from(sym) < (1u64 << bits));
 
         if bits > 19 {
             self.write_short((sym & u32::from(std::u16::MAX)) as u16)?;
-- 
2.43.0


From 82aec585fca42f4bffbe05db78a6b7e63f4355f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 37/40] fix: integers of 31 bits were not coded correctly

---
 src/compressors.rs   | 4 ++--
 src/decompressors.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compressors.rs b/src/compressors.rs
index 38bd104..aa37936 100644
--- a/src/compressors.rs
+++ b/src/compressors.rs
@@ -148,9 +148,9 @@ impl IntegerCompressor {
         let mut corr = real.wrapping_sub(pred);
         // we fold the corrector into the interval [ corr_min  ...  corr_max ]
         if corr < self.corr_min {
-            corr += self.corr_range as i32;
+            corr = corr.wrapping_add(self.corr_range as i32);
         } else if corr > self.corr_max {
-            corr -= self.corr_range as i32;
+            corr = corr.wrapping_sub(self.corr_range as i32);
         }
 
         let m_bit = &mut self.m_bits[context as usize];
diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..cb2df55 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -211,9 +211,9 @@ impl IntegerDecompressor {
         //--- read corrector ---//
         let mut real = pred.wrapping_add(corr);
         if real < 0 {
-            real += self.corr_range as i32;
-        } else if real >= self.corr_range as i32 {
-            real -= self.corr_range as i32
+            real = real.wrapping_add(self.corr_range as i32);
+        } else if real as u32 >= self.corr_range {
+            real = real.wrapping_sub(self.corr_range as i32)
         }
         Ok(real)
     }
-- 
2.43.0


From 98b1143387b8d4919342ebb308c4642772b719ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 38/40] fix: switching gps time sequences many times overflowed
 the stack on damaged data

---
 src/las/gps.rs    | 25 +++++++++++++++++--------
 src/las/point6.rs | 13 ++++++++++---
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index 5e6cca7..27dd112 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -878,9 +878,22 @@ pub mod v2 {
 
         fn decompress_with(
             &mut self,
-            mut decoder: &mut ArithmeticDecoder<R>,
+            decoder: &mut ArithmeticDecoder<R>,
             buf: &mut [u8],
         ) -> std::io::Result<()> {
+            // Damaged data can switch sequence any number of times
+            while self.decompress_or_switch(decoder)? {}
+            self.common.last_gps_times[self.common.last].pack_into(buf);
+            Ok(())
+        }
+    }
+
+    impl GpsTimeDecompressor {
+        /// Returns true when it only switched to another sequence
+        fn decompress_or_switch<R: Read>(
+            &mut self,
+            mut decoder: &mut ArithmeticDecoder<R>,
+        ) -> std::io::Result<bool> {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
@@ -948,7 +961,7 @@ pub mod v2 {
                     } else if multi > 2 {
                         // we switch to another sequence
                         self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 } else {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
@@ -1131,14 +1144,10 @@ pub mod v2 {
                         self.common.last = (self.common.last + multi as usize
                             - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                             & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 }
-                self.common
-                    .last_gps_times
-                    .get_unchecked(self.common.last)
-                    .pack_into_unchecked(buf);
-                Ok(())
+                Ok(false)
             }
         }
     }
diff --git a/src/las/point6.rs b/src/las/point6.rs
index eb5adb3..bbbadf5 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,6 +687,13 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
+            // Damaged data can switch sequence any number of times
+            while self.read_gps_time_or_switch()? {}
+            Ok(())
+        }
+
+        /// Returns true when it only switched to another sequence
+        fn read_gps_time_or_switch(&mut self) -> std::io::Result<bool> {
             let the_context = &mut self.contexts[self.current_context];
 
             let mut multi: i32;
@@ -736,7 +743,7 @@ mod v3_v4 {
                     // We switch to another sequence
                     the_context.gps_sequences.last =
                         (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             } else {
                 multi = self
@@ -874,10 +881,10 @@ mod v3_v4 {
                         + multi as usize
                         - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                         & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             }
-            Ok(())
+            Ok(false)
         }
     }
 
-- 
2.43.0


From 80add99b6683475072eed0e0c409d7854372b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 39/40] fix: the parallel decompressor allocated as many points
 as a damaged chunk table states

---
 src/laszip/parallel/decompression.rs | 35 ++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 6a54668..b16f9ab 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -188,8 +188,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                     // is unknown, so we have to decompress it until an end of file appears
                     decompress_last_points(&mut *decompressor, rest.get_mut(), num_bytes_left)?;
                 } else {
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    decompressor.decompress_many(rest.get_mut())?;
+                    decompress_points(&mut *decompressor, rest.get_mut(), num_bytes_left)?;
                 }
                 rest.set_position(0);
                 Ok(())
@@ -256,8 +255,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 return Ok(());
             }
         } else {
-            self.rest.get_mut().resize(num_bytes, 0u8);
-            decompressor.decompress_many(self.rest.get_mut())?;
+            decompress_points(&mut *decompressor, self.rest.get_mut(), num_bytes)?;
         }
         // This effectively discard points that were
         // before the one we just seeked to
@@ -293,6 +291,31 @@ impl<R: Read + Seek> crate::laszip::LazDecompressor for ParLasZipDecompressor<R>
     }
 }
 
+const MAX_NUM_BYTES_AT_ONCE: usize = 1 << 20;
+
+/// Number of bytes of points by which a buffer grows, the number of points stated
+/// in a file cannot be trusted until there are that many points.
+fn num_bytes_at_once(record_size: usize) -> usize {
+    let record_size = record_size.max(1);
+    (MAX_NUM_BYTES_AT_ONCE / record_size).max(1) * record_size
+}
+
+/// Decompresses exactly `num_bytes` bytes of points
+fn decompress_points<R: Read>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    points: &mut Vec<u8>,
+    num_bytes: usize,
+) -> std::io::Result<()> {
+    let num_bytes_at_once = num_bytes_at_once(decompressor.record_size());
+    points.clear();
+    while points.len() < num_bytes {
+        let start = points.len();
+        points.resize(start + (num_bytes - start).min(num_bytes_at_once), 0u8);
+        decompressor.decompress_many(&mut points[start..])?;
+    }
+    Ok(())
+}
+
 /// Decompresses points of the last chunk, until its end or until there are `max_num_bytes` bytes.
 ///
 /// The last chunk may contain (much) less points than what the chunk size says.
@@ -301,9 +324,7 @@ fn decompress_last_points<R: Read>(
     points: &mut Vec<u8>,
     max_num_bytes: usize,
 ) -> std::io::Result<()> {
-    const MAX_NUM_BYTES_AT_ONCE: usize = 1 << 20;
-    let record_size = decompressor.record_size().max(1);
-    let num_bytes_at_once = (MAX_NUM_BYTES_AT_ONCE / record_size).max(1) * record_size;
+    let num_bytes_at_once = num_bytes_at_once(decompressor.record_size());
     points.clear();
     while points.len() < max_num_bytes {
         let start = points.len();
-- 
2.43.0


From 09a480e9867595609956a33bb354be0248d95631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 40/40] fix: a damaged 31 bit correction overflowed the integer
 decompressor

---
 src/decompressors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index cb2df55..0966325 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -156,7 +156,7 @@ impl IntegerDecompressor {
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // if c is in the interval [ 2^(k-1)  ...  + 2^k - 1 ]
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -193,7 +193,7 @@ impl IntegerDecompressor {
                         // translate c back into its correct interval
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
-- 
2.43.0

