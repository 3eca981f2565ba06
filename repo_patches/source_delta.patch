From a86aaece12d21e06c8d4d63340e55fbd8df0046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 01/67] fix: HybridRleBooleanIter stopped after the first run

---
 src/deserialize/hybrid_rle.rs | 48 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..d888bbb 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,41 +162,39 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
+        loop {
+            let value = match &mut self.current_run {
+                Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.next(),
+                Some(HybridBooleanState::Repeated(_, 0)) | None => None,
+                Some(HybridBooleanState::Repeated(value, remaining)) => {
                     *remaining -= 1;
                     Some(*value)
                 }
-                .map(Ok),
+            };
+            if let Some(value) = value {
+                return Some(Ok(value));
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
-                HybridEncoded::Bitmap(bitmap, length) => {
-                    HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
+            // the current run is exhausted: advance to the next one
+            self.current_run = match self.iter.next()? {
+                Ok(HybridEncoded::Bitmap(bitmap, length)) => Some(HybridBooleanState::Bitmap(
+                    BitmapIter::new(bitmap, 0, length),
+                )),
+                Ok(HybridEncoded::Repeated(value, length)) => {
+                    Some(HybridBooleanState::Repeated(value, length))
                 }
-                HybridEncoded::Repeated(value, length) => {
-                    HybridBooleanState::Repeated(value, length)
-                }
-            });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
-            }
-        } else {
-            None
+                Err(e) => return Some(Err(e)),
+            };
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let current = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = current + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From ea74628c86c7f9a9445d58a8073423af65862f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 02/67] fix: delta_byte_array::encode panicked when an item is
 a prefix of the previous one

---
 src/encoding/delta_byte_array/encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..581946b 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,8 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                // no difference: the prefix is the shortest of the two
+                .unwrap_or_else(|| item.len().min(previous.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From 6fc6671addd9b86fa234f8bbe0065bd349fc614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 03/67] fix: uleb128::decode panicked on overlong integers and
 accepted truncated ones

---
 src/encoding/uleb128.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..950ff8d 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -8,18 +8,18 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     for byte in values {
         consumed += 1;
         if shift == 63 && *byte > 1 {
-            panic!()
+            return Err(Error::oos("ULEB128 does not fit in 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
 
         if byte & 0b10000000 == 0 {
-            break;
+            return Ok((result, consumed));
         }
 
         shift += 7;
     }
-    Ok((result, consumed))
+    Err(Error::oos("ULEB128 ended before its last byte"))
 }
 
 /// Encodes `value` in ULEB128 into `container`. The exact number of bytes written
-- 
2.43.0


From 31d9434e491e93c3e62b076465cb2ca75b975e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 04/67] fix: DELTA_BINARY_PACKED overflowed on differences that
 do not fit in 64 bits

---
 src/encoding/delta_bitpacked/decoder.rs | 11 ++++++-----
 src/encoding/delta_bitpacked/encoder.rs |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..74bc189 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -99,12 +99,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // deltas are two's complement differences: they wrap around
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -234,7 +235,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..fde07f9 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,11 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +50,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From bbfc49bede5198b8592fec6d6168dd2e89c06aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 05/67] fix: the file writers accepted calls after end and
 after a failed call

---
 src/write/file.rs   | 15 +++++++++++++--
 src/write/mod.rs    |  2 ++
 src/write/stream.rs | 15 +++++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..8944971 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -123,7 +123,8 @@ impl<W: Write> FileWriter<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -145,6 +146,13 @@ impl<W: Write> FileWriter<W> {
         if self.offset == 0 {
             self.start()?;
         }
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end or after an error".to_string(),
+            ));
+        }
+        self.state = State::Incomplete;
+
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -156,6 +164,7 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
@@ -168,9 +177,11 @@ impl<W: Write> FileWriter<W> {
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice or after an error".to_string(),
             ));
         }
+        self.state = State::Incomplete;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..7894dbc 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -47,6 +47,8 @@ pub enum Version {
 enum State {
     Initialised,
     Started,
+    /// An operation is in progress, or did not complete: the bytes in the file are not known
+    Incomplete,
     Finished,
 }
 
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..4f450e9 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -97,7 +97,8 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Incomplete;
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -117,6 +118,12 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         if self.offset == 0 {
             self.start().await?;
         }
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end or after an error".to_string(),
+            ));
+        }
+        self.state = State::Incomplete;
 
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
@@ -130,6 +137,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
@@ -142,9 +150,11 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice or after an error".to_string(),
             ));
         }
+        self.state = State::Incomplete;
+
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -184,6 +194,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From 5e3e40044b0121dd013c91716ffea1a5a074583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 06/67] fix: row groups with fewer or more columns than the
 schema were written

---
 src/write/row_group.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..ca0161f 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -56,6 +56,14 @@ impl ColumnOffsetsMetadata {
     }
 }
 
+fn missing_column() -> Error {
+    Error::InvalidParameter("A row group must have one column chunk per schema column".to_string())
+}
+
+fn extra_column() -> Error {
+    Error::InvalidParameter("A row group has more column chunks than schema columns".to_string())
+}
+
 fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64> {
     columns
         .get(0)
@@ -83,7 +91,7 @@ pub fn write_row_group<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -91,17 +99,21 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
-
     let initial = offset;
-    let columns = column_iter
-        .map(|(descriptor, page_iter)| {
+    let written = descriptors
+        .iter()
+        .map(|descriptor| {
+            let page_iter = columns.next().ok_or_else(missing_column)?;
             let (column, page_specs, size) =
                 write_column_chunk(writer, offset, descriptor, page_iter?)?;
             offset += size;
             Ok((column, page_specs))
         })
         .collect::<Result<Vec<_>>>()?;
+    if columns.next().is_some() {
+        return Err(extra_column());
+    }
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
@@ -150,7 +162,7 @@ pub async fn write_row_group_async<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -158,16 +170,19 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
-
     let initial = offset;
-    let mut columns = vec![];
-    for (descriptor, page_iter) in column_iter {
+    let mut written = vec![];
+    for descriptor in descriptors {
+        let page_iter = columns.next().ok_or_else(missing_column)?;
         let (column, page_specs, size) =
             write_column_chunk_async(writer, offset, descriptor, page_iter?).await?;
         offset += size;
-        columns.push((column, page_specs));
+        written.push((column, page_specs));
+    }
+    if columns.next().is_some() {
+        return Err(extra_column());
     }
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
-- 
2.43.0


From f2700eb064b6d783fe9cd78cd2ccdd532ff9f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 07/67] fix: row groups whose columns have different numbers of
 rows were written

---
 src/write/row_group.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index ca0161f..cacaa26 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -65,22 +65,28 @@ fn extra_column() -> Error {
 }
 
 fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64> {
-    columns
-        .get(0)
-        .map(|(_, specs)| {
-            let mut num_rows = 0;
-            specs
-                .iter()
-                .filter(|x| is_data_page(x))
-                .try_for_each(|spec| {
-                    num_rows += spec.num_rows.ok_or_else(|| {
-                        Error::oos("All data pages must declare the number of rows on it")
-                    })? as i64;
-                    Result::Ok(())
+    let mut num_rows = columns.iter().map(|(_, specs)| {
+        specs
+            .iter()
+            .filter(|x| is_data_page(x))
+            .try_fold(0, |num_rows, spec| {
+                let rows = spec.num_rows.ok_or_else(|| {
+                    Error::oos("All data pages must declare the number of rows on it")
                 })?;
-            Result::Ok(num_rows)
-        })
-        .unwrap_or(Ok(0))
+                Result::Ok(num_rows + rows as i64)
+            })
+    });
+
+    let first = num_rows.next().unwrap_or(Ok(0))?;
+    num_rows.try_for_each(|rows| {
+        if rows? != first {
+            return Err(Error::oos(
+                "All columns of a row group must have the same number of rows",
+            ));
+        }
+        Ok(())
+    })?;
+    Ok(first)
 }
 
 pub fn write_row_group<
-- 
2.43.0


From 4c9def23a01b620035b6a79d732809c6ad564cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 08/67] fix: the sorted flag of dictionary pages was lost when
 writing

---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..ee56329 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -191,7 +191,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: page.is_sorted.then_some(true),
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From 65d1097435dba69f771cb54c46cdd50b0ee47aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 09/67] fix: writing a page with a row selection panicked or
 recorded a wrong number of rows

---
 src/write/page.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index ee56329..8c2d8bb 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -12,6 +12,7 @@ use parquet_format_safe::{DictionaryPageHeader, Encoding, PageType};
 
 use crate::compression::Compression;
 use crate::error::{Error, Result};
+use crate::indexes::Interval;
 use crate::page::{
     CompressedDataPage, CompressedDictPage, CompressedPage, DataPageHeader, ParquetPageHeader,
 };
@@ -39,6 +40,14 @@ fn maybe_bytes(uncompressed: usize, compressed: usize) -> Result<(i32, i32)> {
     Ok((uncompressed_page_size, compressed_page_size))
 }
 
+/// The number of rows of a page: only known when its rows are a single interval from the first one.
+fn num_rows(selected_rows: Option<&[Interval]>) -> Option<usize> {
+    match selected_rows {
+        Some([rows]) if rows.start == 0 => Some(rows.length),
+        _ => None,
+    }
+}
+
 /// Contains page write metrics.
 pub struct PageWriteSpec {
     pub header: ParquetPageHeader,
@@ -90,7 +99,7 @@ pub fn write_page<W: Write>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: num_rows(selected_rows),
         num_values,
     })
 }
@@ -136,7 +145,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: num_rows(selected_rows),
         num_values,
     })
 }
-- 
2.43.0


From dbb960f788fe933b36763a3b96096e38790bcdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 10/67] fix: types::ord_binary considered a value and its
 prefixes equal

---
 src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..d06faca 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -128,7 +128,8 @@ pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
             other => return other,
         }
     }
-    Equal
+    // one is a prefix of the other
+    a.len().cmp(&b.len())
 }
 
 #[inline]
-- 
2.43.0


From bf2e66de816e739281bb4126b9fe52b2a60ba787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 11/67] fix: comparing INT96 timestamps overflowed for dates
 far from the epoch

---
 src/types.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index d06faca..b68b287 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -95,12 +95,13 @@ impl NativeType for [u32; 3] {
 
     #[inline]
     fn ord(&self, other: &Self) -> std::cmp::Ordering {
-        int96_to_i64_ns(*self).ord(&int96_to_i64_ns(*other))
+        int96_to_ns(*self).cmp(&int96_to_ns(*other))
     }
 }
 
+/// Nanoseconds since the epoch; they may not fit in 64 bits.
 #[inline]
-pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
+fn int96_to_ns(value: [u32; 3]) -> i128 {
     const JULIAN_DAY_OF_EPOCH: i64 = 2_440_588;
     const SECONDS_PER_DAY: i64 = 86_400;
     const NANOS_PER_SECOND: i64 = 1_000_000_000;
@@ -109,7 +110,13 @@ pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
     let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;
     let seconds = (day - JULIAN_DAY_OF_EPOCH) * SECONDS_PER_DAY;
 
-    seconds * NANOS_PER_SECOND + nanoseconds
+    seconds as i128 * NANOS_PER_SECOND as i128 + nanoseconds as i128
+}
+
+/// Nanoseconds since the epoch. Dates that are not representable wrap around.
+#[inline]
+pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
+    int96_to_ns(value) as i64
 }
 
 /// Returns the ordering of two binary values.
-- 
2.43.0


From 4bbfa6406e27a9336b020aa2053630fbbed6752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 12/67] fix: chunk statistics of byte arrays ignored the length
 of values with a common prefix

---
 src/write/statistics.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..e6de9da 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -122,7 +122,12 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
             _ => {}
         }
     }
-    a
+    // one is a prefix of the other
+    if (a.len() > b.len()) == max {
+        a
+    } else {
+        b
+    }
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From d325d1ed2498c60fc16c5f92e02ac3f1f566cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 13/67] fix: chunk statistics claimed bounds and null counts
 that some page does not support

---
 src/write/column_chunk.rs | 52 ++++++++++++++++++++++++++++++++++++---
 src/write/statistics.rs   |  3 ++-
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..37d80d8 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -9,7 +9,9 @@ use futures::AsyncWrite;
 #[cfg(feature = "async")]
 use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
 
-use crate::statistics::serialize_statistics;
+use crate::schema::types::PhysicalType;
+use crate::statistics::{serialize_statistics, ParquetStatistics};
+use crate::types;
 use crate::FallibleStreamingIterator;
 use crate::{
     compression::Compression,
@@ -22,7 +24,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -99,6 +101,40 @@ where
     Ok((column_chunk, specs, bytes_written))
 }
 
+/// Removes from the statistics of the chunk what some of its data pages do not support.
+fn retain_supported(
+    statistics: &mut ParquetStatistics,
+    specs: &[PageWriteSpec],
+    descriptor: &ColumnDescriptor,
+) {
+    let is_nan = |value: &[u8]| match descriptor.descriptor.primitive_type.physical_type {
+        PhysicalType::Float => types::decode::<f32>(value).is_nan(),
+        PhysicalType::Double => types::decode::<f64>(value).is_nan(),
+        _ => false,
+    };
+    let is_bound = |value: &Option<Vec<u8>>| matches!(value, Some(value) if !is_nan(value));
+
+    for spec in specs.iter().filter(|x| is_data_page(x)) {
+        let page = spec
+            .statistics
+            .as_ref()
+            .map(|x| serialize_statistics(x.as_ref()));
+        let null_count = page.as_ref().and_then(|x| x.null_count);
+        if null_count.is_none() {
+            statistics.null_count = None;
+        }
+        if null_count == Some(spec.num_values as i64) {
+            continue; // a page without values has no bounds
+        }
+        if !page.as_ref().map_or(false, |x| is_bound(&x.min_value)) {
+            statistics.min_value = None;
+        }
+        if !page.as_ref().map_or(false, |x| is_bound(&x.max_value)) {
+            statistics.max_value = None;
+        }
+    }
+}
+
 fn build_column_chunk(
     specs: &[PageWriteSpec],
     descriptor: &ColumnDescriptor,
@@ -176,9 +212,17 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
+    let statistics = specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .map(|x| &x.statistics)
+        .collect::<Vec<_>>();
     let statistics = reduce(&statistics)?;
-    let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = statistics.map(|x| {
+        let mut statistics = serialize_statistics(x.as_ref());
+        retain_supported(&mut statistics, specs, descriptor);
+        statistics
+    });
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index e6de9da..d1a8c72 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -26,7 +26,8 @@ fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option
 }
 
 pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn Statistics>>> {
-    if stats.is_empty() {
+    // without the statistics of a page, nothing can be said about all of them
+    if stats.is_empty() || stats.iter().any(|x| x.is_none()) {
         return Ok(None);
     }
     let stats = stats
-- 
2.43.0


From 6b896f24800f085c3ecfe47fe97d856fcb6401b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 14/67] fix: writing several pages of INT96 with statistics
 panicked

---
 src/write/statistics.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index d1a8c72..e6c5e6a 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -75,7 +75,24 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_int96(stats)))
+        }
+    })
+}
+
+/// The order of INT96 is undefined and thus only the number of nulls can be reduced.
+fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
+    mut stats: I,
+) -> PrimitiveStatistics<[u32; 3]> {
+    let mut initial = stats.next().unwrap().clone();
+    initial.min_value = None;
+    initial.max_value = None;
+    stats.fold(initial, |mut acc, new| {
+        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.distinct_count = None;
+        acc
     })
 }
 
-- 
2.43.0


From 1fa46eabe8a3b34b0992fc1af16056767ed3420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 15/67] fix: chunk statistics ignored the sort order of the
 column's type

---
 src/write/column_chunk.rs |  14 ++++-
 src/write/statistics.rs   | 115 ++++++++++++++++++++++++++++++++------
 2 files changed, 111 insertions(+), 18 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 37d80d8..fa7709a 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -17,7 +17,7 @@ use crate::{
     compression::Compression,
     encoding::Encoding,
     error::{Error, Result},
-    metadata::ColumnDescriptor,
+    metadata::{get_sort_order, ColumnDescriptor, SortOrder},
     page::{CompressedPage, PageType},
 };
 
@@ -217,10 +217,20 @@ fn build_column_chunk(
         .filter(|x| is_data_page(x))
         .map(|x| &x.statistics)
         .collect::<Vec<_>>();
-    let statistics = reduce(&statistics)?;
+    let primitive_type = &descriptor.descriptor.primitive_type;
+    let sort_order = get_sort_order(
+        &primitive_type.logical_type,
+        &primitive_type.converted_type,
+        &primitive_type.physical_type,
+    );
+    let statistics = reduce(&statistics, sort_order)?;
     let statistics = statistics.map(|x| {
         let mut statistics = serialize_statistics(x.as_ref());
         retain_supported(&mut statistics, specs, descriptor);
+        if sort_order == SortOrder::Undefined {
+            statistics.min_value = None;
+            statistics.max_value = None;
+        }
         statistics
     });
 
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index e6c5e6a..9b80b0e 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
+use crate::metadata::SortOrder;
 use crate::schema::types::PhysicalType;
 use crate::statistics::*;
 use crate::types::NativeType;
@@ -16,16 +17,26 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
 }
 
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
+fn reduce_vec8<F: Fn(Vec<u8>, Vec<u8>, bool) -> Vec<u8>>(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    max: bool,
+    op: F,
+) -> Option<Vec<u8>> {
     match (lhs, rhs) {
         (None, None) => None,
         (Some(x), None) => Some(x),
         (None, Some(x)) => Some(x.clone()),
-        (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max)),
+        (Some(x), Some(y)) => Some(op(x, y.clone(), max)),
     }
 }
 
-pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn Statistics>>> {
+/// Reduces the statistics of the pages of a column into the statistics of the column,
+/// according to the sort order of its type.
+pub fn reduce(
+    stats: &[&Option<Arc<dyn Statistics>>],
+    sort_order: SortOrder,
+) -> Result<Option<Arc<dyn Statistics>>> {
     // without the statistics of a page, nothing can be said about all of them
     if stats.is_empty() || stats.iter().any(|x| x.is_none()) {
         return Ok(None);
@@ -53,11 +64,21 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
         }
         PhysicalType::Int32 => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_primitive::<i32, _>(stats)))
+            Some(Arc::new(match sort_order {
+                SortOrder::Unsigned => {
+                    reduce_primitive_by::<i32, _, _>(stats, |x, y| *x as u32 > *y as u32)
+                }
+                _ => reduce_primitive::<i32, _>(stats),
+            }))
         }
         PhysicalType::Int64 => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_primitive::<i64, _>(stats)))
+            Some(Arc::new(match sort_order {
+                SortOrder::Unsigned => {
+                    reduce_primitive_by::<i64, _, _>(stats, |x, y| *x as u64 > *y as u64)
+                }
+                _ => reduce_primitive::<i64, _>(stats),
+            }))
         }
         PhysicalType::Float => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
@@ -69,11 +90,17 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
         }
         PhysicalType::ByteArray => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_binary(stats)))
+            Some(Arc::new(match sort_order {
+                SortOrder::Signed => reduce_binary_by(stats, ord_decimal),
+                _ => reduce_binary(stats),
+            }))
         }
         PhysicalType::FixedLenByteArray(_) => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
-            Some(Arc::new(reduce_fix_len_binary(stats)))
+            Some(Arc::new(match sort_order {
+                SortOrder::Signed => reduce_fix_len_binary_by(stats, ord_decimal),
+                _ => reduce_fix_len_binary(stats),
+            }))
         }
         PhysicalType::Int96 => {
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
@@ -96,11 +123,19 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
     })
 }
 
-fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
+fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(stats: I) -> BinaryStatistics {
+    reduce_binary_by(stats, ord_binary)
+}
+
+fn reduce_binary_by<'a, I, F>(mut stats: I, op: F) -> BinaryStatistics
+where
+    I: Iterator<Item = &'a BinaryStatistics>,
+    F: Fn(Vec<u8>, Vec<u8>, bool) -> Vec<u8> + Copy,
+{
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, op);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, op);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -108,12 +143,20 @@ fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) ->
 }
 
 fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
-    mut stats: I,
+    stats: I,
 ) -> FixedLenStatistics {
+    reduce_fix_len_binary_by(stats, ord_binary)
+}
+
+fn reduce_fix_len_binary_by<'a, I, F>(mut stats: I, op: F) -> FixedLenStatistics
+where
+    I: Iterator<Item = &'a FixedLenStatistics>,
+    F: Fn(Vec<u8>, Vec<u8>, bool) -> Vec<u8> + Copy,
+{
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, op);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, op);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -148,6 +191,37 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
     }
 }
 
+/// Orders big-endian two's complement integers (decimals), possibly of different lengths
+fn ord_decimal(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
+    // removes leading bytes that only repeat the sign
+    fn shorten(mut bytes: &[u8]) -> &[u8] {
+        while let [first, second, ..] = bytes {
+            if (*first == 0 && *second < 0x80) || (*first == 0xff && *second >= 0x80) {
+                bytes = &bytes[1..];
+            } else {
+                break;
+            }
+        }
+        bytes
+    }
+    let is_greater = {
+        let (a, b) = (shorten(&a), shorten(&b));
+        let a_negative = a.first().map_or(false, |x| *x >= 0x80);
+        let b_negative = b.first().map_or(false, |x| *x >= 0x80);
+        match (a_negative, b_negative) {
+            (true, false) => false,
+            (false, true) => true,
+            (false, false) => (a.len(), a) > (b.len(), b),
+            (true, true) => (b.len(), a) > (a.len(), b),
+        }
+    };
+    if is_greater == max {
+        a
+    } else {
+        b
+    }
+}
+
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
     mut stats: I,
 ) -> BooleanStatistics {
@@ -174,19 +248,28 @@ fn reduce_primitive<
     T: NativeType + std::cmp::PartialOrd,
     I: Iterator<Item = &'a PrimitiveStatistics<T>>,
 >(
-    mut stats: I,
+    stats: I,
 ) -> PrimitiveStatistics<T> {
+    reduce_primitive_by(stats, |x, y| x > y)
+}
+
+fn reduce_primitive_by<'a, T, I, F>(mut stats: I, is_greater: F) -> PrimitiveStatistics<T>
+where
+    T: NativeType,
+    I: Iterator<Item = &'a PrimitiveStatistics<T>>,
+    F: Fn(&T, &T) -> bool,
+{
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_single(
             acc.min_value,
             new.min_value,
-            |x, y| if x > y { y } else { x },
+            |x, y| if is_greater(&x, &y) { y } else { x },
         );
         acc.max_value = reduce_single(
             acc.max_value,
             new.max_value,
-            |x, y| if x > y { x } else { y },
+            |x, y| if is_greater(&x, &y) { x } else { y },
         );
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
-- 
2.43.0


From 1e739f71b889bc10a16bb2f9183ab4b60e077a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 16/67] fix: the column index marked pages with values as null
 pages

---
 src/write/indexes/serialize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/write/indexes/serialize.rs b/src/write/indexes/serialize.rs
index df48153..f035f89 100644
--- a/src/write/indexes/serialize.rs
+++ b/src/write/indexes/serialize.rs
@@ -35,6 +35,8 @@ pub fn serialize_column_index(pages: &[PageWriteSpec]) -> Result<ColumnIndex> {
                             .ok_or_else(|| Error::oos("max value of a page is required"))?,
                     );
                     null_pages.push(false)
+                } else if null_count != spec.num_values as i64 {
+                    return Err(Error::oos("min value of a page is required"));
                 } else {
                     min_values.push(vec![0]);
                     max_values.push(vec![0]);
-- 
2.43.0


From 3de57b62459d5aced5c2f9f73416379f3feae2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 17/67] fix: reading the footer panicked when the source ends
 before its reported size

---
 src/read/metadata.rs | 7 +++++++
 src/read/stream.rs   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..30ba10e 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -59,6 +59,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is shorter than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("The file must end with PAR1"));
@@ -86,6 +90,9 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         buffer.clear();
         buffer.try_reserve(footer_len as usize)?;
         reader.take(footer_len).read_to_end(&mut buffer)?;
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than its size"));
+        }
 
         &buffer
     };
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..463bbf8 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -47,6 +47,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         .read_to_end(&mut buffer)
         .await?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is shorter than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("Invalid Parquet file. Corrupt footer"));
@@ -76,6 +80,9 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
             .take(footer_len as u64)
             .read_to_end(&mut buffer)
             .await?;
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than its size"));
+        }
 
         &buffer
     };
-- 
2.43.0


From e0f1c916cf5fdd53a2c246655ce2d895d42bfb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 18/67] fix: reading a column chunk accepted a truncated source

---
 src/read/column/mod.rs    | 3 +++
 src/read/column/stream.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..75527ca 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -197,6 +197,9 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The column chunk is shorter than its size"));
+    }
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..9a3bb2a 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -21,6 +21,9 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.take(length as u64).read_to_end(&mut chunk).await?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The column chunk is shorter than its size"));
+    }
     Result::Ok(chunk)
 }
 
-- 
2.43.0


From 7eb30b52520131538afba450cf603777d4b76ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 19/67] fix: ReadColumnIterator iterated over columns in
 reverse order

---
 src/read/column/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index 75527ca..0fa0b82 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -135,8 +135,9 @@ impl ReadColumnIterator {
     /// Returns a new [`ReadColumnIterator`]
     pub fn new(
         field: ParquetType,
-        chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
+        mut chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
     ) -> Self {
+        chunks.reverse();
         Self {
             field,
             chunks,
-- 
2.43.0


From bb3219609e53165392ea4496204b9c01276a02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/67] fix: truncated or malformed bloom filters were accepted

---
 src/bloom_filter/read.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..a3b7352 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -44,6 +44,14 @@ pub fn read<R: Read + Seek>(
     bitset.clear();
     bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
+    if bitset.len() != length {
+        return Err(Error::oos("The bloom filter is shorter than its size"));
+    }
+    if length == 0 || length % 32 != 0 {
+        return Err(Error::oos(
+            "The bitset of a bloom filter must contain whole blocks of 32 bytes",
+        ));
+    }
 
     Ok(())
 }
-- 
2.43.0


From 1528f6997e15cbe4da9a50b5b3166a46beba2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 21/67] fix: IndexedPageReader accepted truncated pages and
 pages outside of the column

---
 src/read/page/indexed_reader.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..52747f5 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -56,7 +56,10 @@ fn read_page<R: Read + Seek>(
     // read [header][data] to buffer
     buffer.clear();
     buffer.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    let bytes_read = reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    if bytes_read != length {
+        return Err(Error::oos("The page is shorter than its location"));
+    }
 
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
@@ -65,8 +68,12 @@ fn read_page<R: Read + Seek>(
     let buffer = reader.into_inner();
 
     // copy [data]
+    let data_size: usize = page_header.compressed_page_size.try_into()?;
+    let page = buffer[header_size..].get(..data_size).ok_or_else(|| {
+        Error::oos("The page header reported a page larger than the page's location")
+    })?;
     data.clear();
-    data.extend_from_slice(&buffer[header_size..]);
+    data.extend_from_slice(page);
     Ok(page_header)
 }
 
@@ -154,11 +161,14 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // the column
         let (start, length) = match self.pages.get(0) {
             Some(page) => {
-                let length = (page.start - self.column_start) as usize;
-                if length > 0 {
-                    (self.column_start, length)
-                } else {
-                    return None;
+                match page.start.checked_sub(self.column_start) {
+                    Some(0) => return None,
+                    Some(length) => (self.column_start, length as usize),
+                    None => {
+                        return Some(Err(Error::oos(
+                            "The first page cannot be before the start of the column",
+                        )))
+                    }
                 }
             }
             None => return None,
-- 
2.43.0


From a6f5639b3eda56ceb1e33997486cfcb569ce4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 22/67] fix: skipping many consecutive pages overflowed the
 stack

---
 src/read/page/indexed_reader.rs | 12 +++++-------
 src/read/page/reader.rs         | 25 +++++++++++++------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 52747f5..57bbf77 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -204,15 +204,13 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
                 }
             }
             State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
+                // skip the pages without selected rows
+                while let Some(page) = self.pages.pop_front() {
+                    if !page.selected_rows.is_empty() {
+                        return Some(self.read_page(page.start, page.length, page.selected_rows));
                     }
-                } else {
-                    None
                 }
+                None
             }
         }
     }
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..ee4224a 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -142,21 +142,22 @@ impl<R: Read> Iterator for PageReader<R> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        loop {
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(ref maybe_page) = maybe_maybe_page {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = std::mem::take(&mut buffer);
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From 1bd42f1d7fea14d09e56276436121f518196d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 23/67] fix: the async page stream did not validate the pages
 it skips

---
 src/read/page/stream.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..7dc1850 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -92,18 +92,23 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
 
+            if read_size > max_page_size {
+                Err(Error::WouldOverAllocate)?
+            }
+
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_read = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if bytes_read != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
                     continue
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From ab95b37c81c5f75b1dcf868255ca94588b48cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 24/67] fix: negative counts and lengths in page headers were
 accepted

---
 src/read/page/indexed_reader.rs | 3 ++-
 src/read/page/reader.rs         | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 57bbf77..d5af896 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -11,7 +11,7 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -64,6 +64,7 @@ fn read_page<R: Read + Seek>(
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
     let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    get_page_header(&page_header)?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index ee4224a..e49be02 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -293,6 +293,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -301,6 +302,11 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
+            let _: usize = header.num_rows.try_into()?;
+            let _: usize = header.num_nulls.try_into()?;
+            let _: usize = header.definition_levels_byte_length.try_into()?;
+            let _: usize = header.repetition_levels_byte_length.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
-- 
2.43.0


From a93f6a99a8df4e9bb4cc2e104acb36a1f2152477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 25/67] fix: reading page indexes panicked on truncated sources
 and mixed up columns that are not contiguous

---
 src/read/indexes/read.rs | 131 ++++++++++++++++-----------------------
 1 file changed, 53 insertions(+), 78 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..65705b3 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -1,5 +1,5 @@
 use std::convert::TryInto;
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Read, Seek, SeekFrom};
 
 use parquet_format_safe::ColumnChunk;
 use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex, PageLocation};
@@ -10,71 +10,56 @@ use crate::metadata::ColumnChunkMetaData;
 
 use super::deserialize::deserialize;
 
+/// Returns the range (offset, length) of the index of each of the chunks, or an empty vector if
+/// the indexes are not available.
 fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
     chunks: &[ColumnChunkMetaData],
     get_offset: F,
     get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
-
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
+) -> Result<Vec<(u64, usize)>, Error> {
+    match chunks.first() {
+        Some(chunk) if get_offset(chunk.column_chunk()).is_some() => {}
+        _ => return Ok(vec![]),
     };
 
-    let lengths = chunks
+    chunks
         .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
+        .map(|x| x.column_chunk())
+        .map(|chunk| {
+            let offset = get_offset(chunk)
+                .ok_or_else(|| Error::oos("All columns must have an index or none of them"))?;
+            let length = get_length(chunk).ok_or_else(|| {
                 Error::oos("The column length must exist if column offset exists")
             })?;
 
-            Ok(index_length.try_into()?)
+            Ok((offset.try_into()?, length.try_into()?))
         })
-        .collect::<Result<Vec<_>, Error>>()?;
-
-    Ok((offset, lengths))
+        .collect()
 }
 
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
 }
 
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
 }
 
-fn deserialize_column_indexes(
-    chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
-    let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
-        start += length;
-        r
-    });
+/// Reads the range of the file into `data`
+fn read_range<R: Read + Seek>(
+    reader: &mut R,
+    (offset, length): (u64, usize),
+    data: &mut Vec<u8>,
+) -> Result<(), Error> {
+    reader.seek(SeekFrom::Start(offset))?;
 
-    chunks
-        .iter()
-        .zip(data)
-        .map(|(chunk, data)| {
-            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
-        })
-        .collect()
+    data.clear();
+    data.try_reserve(length)?;
+    reader.by_ref().take(length as u64).read_to_end(data)?;
+    if data.len() != length {
+        return Err(Error::oos("The index is shorter than its length"));
+    }
+    Ok(())
 }
 
 /// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
@@ -83,50 +68,40 @@ pub fn read_columns_indexes<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let ranges = prepare_column_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_column_indexes(chunks, &data, lengths)
-}
-
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let len = data.len() * 2 + 1024;
-    let mut reader = Cursor::new(data);
-
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
+    chunks
+        .iter()
+        .zip(ranges)
+        .map(|(chunk, range)| {
+            read_range(reader, range, &mut data)?;
+            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
+            deserialize(&data, primitive_type)
         })
         .collect()
 }
 
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
+    Ok(offset.page_locations)
+}
+
 /// Read [`PageLocation`]s from the [`ColumnChunkMetaData`]s.
 /// Returns an empty vector if indexes are not available
 pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let ranges = prepare_offset_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_page_locations(&data, chunks.len())
+    ranges
+        .into_iter()
+        .map(|range| {
+            read_range(reader, range, &mut data)?;
+            deserialize_page_locations(&data)
+        })
+        .collect()
 }
-- 
2.43.0


From 377add89571ece4d1299938e40be231e6ecbacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 26/67] fix: pages without selected rows were given an empty
 selected interval

---
 src/indexes/intervals.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..688992d 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -99,12 +99,11 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
     intervals
         .iter()
         .filter_map(|interval| {
-            let interval_end = interval.start + interval.length;
-            let probe_end = probe.start + probe.length;
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
-            if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
+            let interval_end = interval.start.saturating_add(interval.length);
+            let probe_end = probe.start.saturating_add(probe.length);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            if start < end {
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From 32e7fd4c6049896724e766796a1e49df14d5c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 27/67] fix: the column index of booleans panicked on empty
 bounds

---
 src/indexes/index.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..1ee7e3e 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -291,9 +291,11 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
-                    let min = min[0] == 1;
-                    let max = max[0] == 1;
-                    (Some(min), Some(max))
+                    let to_bool = |value: Vec<u8>| match value.as_slice() {
+                        [value] => Ok(*value != 0),
+                        _ => Err(Error::oos("The bounds of an index MUST be plain encoded")),
+                    };
+                    (Some(to_bool(min)?), Some(to_bool(max)?))
                 };
                 Ok(PageIndex {
                     min,
-- 
2.43.0


From 2ac88756198f5952fb02398ccd529d5f65706055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 28/67] fix: LZ4 data with several Hadoop frames was not
 decompressed

---
 src/compression.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..eb7fa11 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -264,25 +264,27 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         let decompressed_size = lz4_decompress_to_buffer(
             &input[..expected_compressed_size as usize],
-            Some(output_len as i32),
-            output,
+            Some(expected_decompressed_size as i32),
+            &mut output[..expected_decompressed_size as usize],
         )?;
         if decompressed_size != expected_decompressed_size as usize {
             return Err(Error::oos("unexpected decompressed size"));
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
+        if input_len > 0 {
             input = &input[expected_compressed_size as usize..];
             output = &mut output[expected_decompressed_size as usize..];
         } else {
             break;
         }
     }
-    if input_len == 0 {
-        Ok(())
-    } else {
+    if input_len != 0 {
         Err(Error::oos("Not all input are consumed"))
+    } else if output_len != 0 {
+        Err(Error::oos("Not all output was written"))
+    } else {
+        Ok(())
     }
 }
 
-- 
2.43.0


From 6bda4ea6c3122fd1d15f46144e55ee510f8ce221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 29/67] fix: decompressing data shorter than reported left
 other bytes in the page

---
 src/compression.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index eb7fa11..c9c4491 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -165,10 +165,8 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             if len > output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
-            Decoder::new()
-                .decompress(input_buf, output_buf)
-                .map_err(|e| e.into())
-                .map(|_| ())
+            let written = Decoder::new().decompress(input_buf, output_buf)?;
+            check_decompressed(written, output_buf)
         }
         #[cfg(not(feature = "snappy"))]
         Compression::Snappy => Err(Error::FeatureNotActive(
@@ -176,14 +174,15 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+        Compression::Lz4Raw => {
+            let written = lz4_flex::block::decompress_into(input_buf, output_buf)?;
+            check_decompressed(written, output_buf)
+        }
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
-            lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-                .map_err(|e| e.into())
+            let length = Some(output_buf.len() as i32);
+            let written = lz4::block::decompress_to_buffer(input_buf, length, output_buf)?;
+            check_decompressed(written, output_buf)
         }
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
@@ -193,8 +192,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
 
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
         Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
-            lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
+            let length = Some(output_buf.len() as i32);
+            let written = lz4_decompress_to_buffer(input_buf, length, output_buf)?;
+            check_decompressed(written, output_buf)
         }),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
@@ -224,6 +224,18 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
     }
 }
 
+/// Errors if the data is shorter than the buffer it was decompressed to, whose remaining bytes
+/// would not belong to it.
+#[cfg(any(feature = "snappy", feature = "lz4", feature = "lz4_flex"))]
+fn check_decompressed(written: usize, output: &[u8]) -> Result<()> {
+    if written != output.len() {
+        return Err(Error::oos(
+            "The decompressed data is shorter than its reported size",
+        ));
+    }
+    Ok(())
+}
+
 /// Try to decompress the buffer as if it was compressed with the Hadoop Lz4Codec.
 /// Translated from the apache arrow c++ function [TryDecompressHadoop](https://github.com/apache/arrow/blob/bf18e6e4b5bb6180706b1ba0d597a65a4ce5ca48/cpp/src/arrow/util/compression_lz4.cc#L474).
 /// Returns error if decompression failed.
-- 
2.43.0


From 67ee4941f4aa63845b76e7c80aeda0a134e3845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 30/67] fix: decompressing a v2 page overflowed on invalid
 lengths of levels

---
 src/read/compression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..839ac45 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let def_levels_length: usize = page_header.definition_levels_byte_length.try_into()?;
+    let rep_levels_length: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = def_levels_length.saturating_add(rep_levels_length);
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
-- 
2.43.0


From 35260d882b78b1565e9ec6225139a689a14246ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 31/67] fix: v2 pages marked as not compressed were compressed
 and could not be read back

---
 src/write/compression.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..57f1e73 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -25,10 +25,19 @@ fn compress_data(
             DataPageHeader::V1(_) => {
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
+            // the header states that the page is not compressed
+            DataPageHeader::V2(header) if header.is_compressed == Some(false) => {
+                std::mem::swap(&mut buffer, &mut compressed_buffer);
+            }
             DataPageHeader::V2(header) => {
-                let levels_byte_length = (header.repetition_levels_byte_length
-                    + header.definition_levels_byte_length)
-                    as usize;
+                let rep_levels_length: usize = header.repetition_levels_byte_length.try_into()?;
+                let def_levels_length: usize = header.definition_levels_byte_length.try_into()?;
+                let levels_byte_length = rep_levels_length.saturating_add(def_levels_length);
+                if levels_byte_length > buffer.len() {
+                    return Err(Error::oos(
+                        "The levels of a v2 page cannot be larger than the page",
+                    ));
+                }
                 compressed_buffer.extend_from_slice(&buffer[..levels_byte_length]);
                 compression::compress(
                     compression,
-- 
2.43.0


From a81623f7d842b329f578cdab2d087bbf3917a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 32/67] fix: SliceFilteredIter panicked on empty intervals

---
 src/deserialize/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..abd041a 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -123,6 +123,10 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
+            // intervals without rows select nothing
+            while matches!(self.selected_rows.front(), Some(interval) if interval.length == 0) {
+                self.selected_rows.pop_front();
+            }
             if let Some(interval) = self.selected_rows.pop_front() {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
-- 
2.43.0


From ca63aea7d5bb9b842718457008af7088a5db6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 33/67] fix: unpacking with more bits than the type holds
 panicked

---
 src/encoding/bitpacked/decode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/encoding/bitpacked/decode.rs b/src/encoding/bitpacked/decode.rs
index fa3f6a9..cf96465 100644
--- a/src/encoding/bitpacked/decode.rs
+++ b/src/encoding/bitpacked/decode.rs
@@ -28,19 +28,25 @@ fn decode_pack<T: Unpackable>(packed: &[u8], num_bits: usize, unpacked: &mut T::
 impl<'a, T: Unpackable> Decoder<'a, T> {
     /// Returns a [`Decoder`] with `T` encoded in `packed` with `num_bits`.
     pub fn try_new(packed: &'a [u8], num_bits: usize, mut length: usize) -> Result<Self, Error> {
-        let block_size = std::mem::size_of::<T>() * num_bits;
-
         if num_bits == 0 {
             return Err(Error::oos("Bitpacking requires num_bits > 0"));
         }
 
-        if packed.len() * 8 < length * num_bits {
+        if num_bits > std::mem::size_of::<T>() * 8 {
+            return Err(Error::oos(format!(
+                "Bitpacking with a number of bits {num_bits} is larger than the type"
+            )));
+        }
+
+        let required_bits = length.saturating_mul(num_bits);
+        if packed.len() * 8 < required_bits {
             return Err(Error::oos(format!(
                 "Unpacking {length} items with a number of bits {num_bits} requires at least {} bytes.",
-                length * num_bits / 8
+                required_bits / 8
             )));
         }
 
+        let block_size = std::mem::size_of::<T>() * num_bits;
         let mut packed = packed.chunks(block_size);
         let mut unpacked = T::Unpacked::zero();
         if let Some(chunk) = packed.next() {
-- 
2.43.0


From 46b2b2b82208887ef52cd31c253a8a692f4c67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 34/67] fix: malformed hybrid RLE runs panicked or overflowed

---
 src/encoding/hybrid_rle/decoder.rs |  6 +++++-
 src/encoding/hybrid_rle/mod.rs     | 34 ++++++++++++++----------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..9241908 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -47,7 +47,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +57,10 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                self.values = &[];
+                return Some(Err(Error::oos("The value of an RLE run is truncated")));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..68d0295 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -84,26 +84,24 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Ok(state) => self.state = state,
+                Err(e) => return Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From 3108f7486cba3f5d07c4645431aa2dc1eed1813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 35/67] fix: malformed DELTA_BINARY_PACKED headers and widths
 panicked

---
 src/encoding/delta_bitpacked/decoder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 74bc189..c154668 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -71,7 +71,7 @@ impl<'a> Block<'a> {
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
+            let miniblock_length = ceil8(self.values_per_mini_block.saturating_mul(num_bits));
             if miniblock_length > self.values.len() {
                 return Err(Error::oos(
                     "block must contain at least miniblock_length bytes (the mini block)",
@@ -82,7 +82,7 @@ impl<'a> Block<'a> {
             self.values = remainder;
             self.consumed_bytes += miniblock_length;
 
-            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length).unwrap())
+            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
         } else {
             None
         };
@@ -139,7 +139,11 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size == 0 || block_size % 128 != 0 {
+            return Err(Error::oos(
+                "The block size of DELTA_BINARY_PACKED must be a positive multiple of 128",
+            ));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -153,8 +157,12 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
-        let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        let values_per_mini_block = (block_size as usize)
+            .checked_div(num_mini_blocks)
+            .filter(|x| *x > 0 && x % 8 == 0)
+            .ok_or_else(|| {
+                Error::oos("The values per miniblock must be a positive multiple of 8")
+            })?;
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
-- 
2.43.0


From c91f768bac82857975721a5cee6407ae54090b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 36/67] fix: v2 pages whose levels are larger than the page
 panicked

---
 src/page/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..904abe2 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,10 +403,16 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
+    let levels_length = rep_level_buffer_length.saturating_add(def_level_buffer_length);
+    if levels_length > buffer.len() {
+        return Err(Error::oos(
+            "The number of bytes declared in v2 levels is higher than the page size",
+        ));
+    }
     Ok((
         &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
+        &buffer[rep_level_buffer_length..levels_length],
+        &buffer[levels_length..],
     ))
 }
 
-- 
2.43.0


From f78df739a712c03b55073f29ebad3203b7fcb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 37/67] fix: dictionary-encoded pages without indices panicked

---
 src/deserialize/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index abd041a..3c9c01f 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,7 +15,9 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let bit_width = *indices_buffer.first().ok_or_else(|| {
+        Error::oos("The indices of a dictionary-encoded page must start with their bit width")
+    })?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
-- 
2.43.0


From 5b3d3cd597366cbc4006f01dc5fdc1457d2b86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 38/67] fix: invalid lengths of delta-encoded byte arrays
 overflowed or panicked

---
 src/encoding/delta_byte_array/decoder.rs      |  6 ++++-
 .../delta_length_byte_array/decoder.rs        | 24 +++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/encoding/delta_byte_array/decoder.rs b/src/encoding/delta_byte_array/decoder.rs
index 6e8f208..dc1484e 100644
--- a/src/encoding/delta_byte_array/decoder.rs
+++ b/src/encoding/delta_byte_array/decoder.rs
@@ -34,7 +34,11 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<u32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.prefix_lengths.next().map(|x| x.map(|x| x as u32))
+        self.prefix_lengths.next().map(|x| {
+            x.and_then(|x| {
+                u32::try_from(x).map_err(|_| Error::oos("The length of a prefix is out of range"))
+            })
+        })
     }
 }
 
diff --git a/src/encoding/delta_length_byte_array/decoder.rs b/src/encoding/delta_length_byte_array/decoder.rs
index cdedd09..1eb0613 100644
--- a/src/encoding/delta_length_byte_array/decoder.rs
+++ b/src/encoding/delta_length_byte_array/decoder.rs
@@ -45,6 +45,25 @@ impl<'a> Decoder<'a> {
         })
     }
 
+    /// Validates the length against the available values and adds it to the total.
+    fn add_length(&mut self, length: i64) -> Result<i32, Error> {
+        let available = if self.lengths.size_hint().0 == 0 {
+            self.values.len() - self.lengths.consumed_bytes()
+        } else {
+            self.values.len()
+        };
+        i32::try_from(length)
+            .ok()
+            .and_then(|length| u32::try_from(length).ok())
+            .and_then(|length| self.total_length.checked_add(length))
+            .filter(|total_length| *total_length as usize <= available)
+            .map(|total_length| {
+                self.total_length = total_length;
+                length as i32
+            })
+            .ok_or_else(|| Error::oos("The length of a byte array is out of range"))
+    }
+
     /// Consumes this decoder and returns the slice of concatenated values.
     /// # Panics
     /// This function panics if this iterator has not been fully consumed.
@@ -70,10 +89,7 @@ impl<'a> Iterator for Decoder<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         let result = self.lengths.next();
         match result {
-            Some(Ok(v)) => {
-                self.total_length += v as u32;
-                Some(Ok(v as i32))
-            }
+            Some(Ok(v)) => Some(self.add_length(v)),
             Some(Err(error)) => Some(Err(error)),
             None => None,
         }
-- 
2.43.0


From 727a45ba1a5cb1d3c172eb5e8267b0cee5749e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 39/67] fix: deserializing fixed-length byte arrays of length
 zero panicked

---
 src/deserialize/fixed_len.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..a1bc840 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -77,6 +77,10 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
             ));
         };
 
+        if size == 0 {
+            return Err(Error::oos("Fixed-length byte arrays must have a length"));
+        }
+
         match (page.encoding(), dict, is_optional) {
             (Encoding::PlainDictionary | Encoding::RleDictionary, Some(dict), false) => {
                 Dictionary::try_new(page, dict).map(Self::RequiredDictionary)
-- 
2.43.0


From 3c5c7559b3df4f84f2010622fdec220f54715574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 40/67] fix: the plain byte array iterator yielded more items
 than its length

---
 src/encoding/plain_byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding/plain_byte_array.rs b/src/encoding/plain_byte_array.rs
index d549e94..7da394b 100644
--- a/src/encoding/plain_byte_array.rs
+++ b/src/encoding/plain_byte_array.rs
@@ -21,7 +21,7 @@ impl<'a> Iterator for BinaryIter<'a> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.values.len() < 4 {
+        if self.values.len() < 4 || self.length == Some(0) {
             return None;
         }
         if let Some(x) = self.length.as_mut() {
-- 
2.43.0


From 606d4a875a06ca7171f04c1150800b342cd60dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 41/67] fix: querying a column without a bloom filter panicked

---
 src/bloom_filter/split_block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bloom_filter/split_block.rs b/src/bloom_filter/split_block.rs
index 576f4d5..413f312 100644
--- a/src/bloom_filter/split_block.rs
+++ b/src/bloom_filter/split_block.rs
@@ -49,6 +49,10 @@ fn unload_block(block: [u32; 8], bitset: &mut [u8]) {
 
 /// Returns whether the `hash` is in the set
 pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
+    if bitset.len() < 32 {
+        // there is no filter and thus nothing can be excluded
+        return true;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
-- 
2.43.0


From 908772adad64ed54c3bf47f04cd3e3bd6053c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 42/67] fix: serializing ColumnChunkMetaData with serde always
 failed

---
 src/metadata/column_chunk_metadata.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..7101097 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -48,8 +48,7 @@ where
     S: Serializer,
 {
     let mut buf = vec![];
-    let cursor = Cursor::new(&mut buf[..]);
-    let mut protocol = TCompactOutputProtocol::new(cursor);
+    let mut protocol = TCompactOutputProtocol::new(&mut buf);
     column_chunk
         .write_to_out_protocol(&mut protocol)
         .map_err(S::Error::custom)?;
-- 
2.43.0


From 2128f4f99c3bd8047b4f2e075f0fb252f625ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 43/67] fix: converting file metadata to thrift lost the order
 of the columns

---
 src/metadata/file_metadata.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..c1bfe12 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -1,7 +1,7 @@
 use crate::{error::Error, metadata::get_sort_order};
 
 use super::{column_order::ColumnOrder, schema_descriptor::SchemaDescriptor, RowGroupMetaData};
-use parquet_format_safe::ColumnOrder as TColumnOrder;
+use parquet_format_safe::{ColumnOrder as TColumnOrder, TypeDefinedOrder};
 
 pub use crate::thrift_format::KeyValue;
 
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
@@ -97,13 +97,26 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.and_then(column_orders_into_thrift),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
     }
 }
 
+/// Converts the [`ColumnOrder`]s to thrift, if every column has one.
+fn column_orders_into_thrift(orders: Vec<ColumnOrder>) -> Option<Vec<TColumnOrder>> {
+    orders
+        .into_iter()
+        .map(|order| match order {
+            ColumnOrder::TypeDefinedOrder(_) => {
+                Some(TColumnOrder::TYPEORDER(TypeDefinedOrder {}))
+            }
+            ColumnOrder::Undefined => None,
+        })
+        .collect()
+}
+
 /// Parses [`ColumnOrder`] from Thrift definition.
 fn parse_column_orders(
     orders: &[TColumnOrder],
-- 
2.43.0


From 44cfd525eccccddc6618363c917aa2bb646a6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 44/67] fix: groups without fields could not be read back

---
 src/schema/io_thrift/from_thrift.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..453b53b 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -50,7 +50,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
         //   This field is not set when the element is a primitive type
         // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
         // have to handle this case too.
-        None | Some(0) => {
+        None | Some(0) if element.num_children.is_none() || element.type_.is_some() => {
             // primitive type
             let repetition = element
                 .repetition_type
@@ -92,7 +92,8 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
 
             Ok((index + 1, tp))
         }
-        Some(n) => {
+        num_children => {
+            let n = num_children.unwrap_or_default();
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-- 
2.43.0


From 2d011ff1beeb8eed3cd0f502020911ac397b5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 45/67] fix: PageReader read pages from an unknown position
 after an error

---
 src/read/page/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index e49be02..c5aa9fc 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -152,6 +152,10 @@ impl<R: Read> Iterator for PageReader<R> {
                         continue;
                     }
                 }
+                if maybe_page.is_err() {
+                    // the position of the next page is unknown => there are no more pages
+                    self.seen_num_values = self.total_num_values;
+                }
             } else {
                 // no page => we take back the buffer
                 self.scratch = std::mem::take(&mut buffer);
-- 
2.43.0


From 87fa43d788f56d642116b0b1926bf1aa776f9f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 46/67] fix: the page size limit ignored the uncompressed size
 of pages

---
 src/read/page/reader.rs | 3 ++-
 src/read/page/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index c5aa9fc..c586761 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -198,8 +198,9 @@ pub(super) fn build_page<R: Read>(
         .unwrap_or_default();
 
     let read_size: usize = page_header.compressed_page_size.try_into()?;
+    let uncompressed_size: usize = page_header.uncompressed_page_size.try_into()?;
 
-    if read_size > reader.max_page_size {
+    if read_size.max(uncompressed_size) > reader.max_page_size {
         return Err(Error::WouldOverAllocate);
     }
 
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 7dc1850..8d35b6c 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -91,8 +91,9 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
             seen_values += data_header.as_ref().map(|x| x.num_values() as i64).unwrap_or_default();
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
+            let uncompressed_size: usize = page_header.uncompressed_page_size.try_into()?;
 
-            if read_size > max_page_size {
+            if read_size.max(uncompressed_size) > max_page_size {
                 Err(Error::WouldOverAllocate)?
             }
 
-- 
2.43.0


From 01f83c57cc8caa3f835821c41070b1e1d55bed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 47/67] fix: write::compress kept the previous contents of its
 intermediary buffer

---
 src/write/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 57f1e73..36da4b9 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -93,9 +93,10 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From 2ab90c162135fd8b73205f0ca1e87ec6f9ab86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 48/67] fix: Compressor and Decompressor returned an emptied
 page after an error

---
 src/read/compression.rs  | 2 +-
 src/write/compression.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 839ac45..ac9bfa3 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -194,7 +194,7 @@ impl<P: PageIterator> FallibleStreamingIterator for Decompressor<P> {
     type Error = Error;
 
     fn advance(&mut self) -> Result<()> {
-        if let Some(page) = self.current.as_mut() {
+        if let Some(mut page) = self.current.take() {
             if self.was_decompressed {
                 self.buffer = std::mem::take(page.buffer());
             } else {
diff --git a/src/write/compression.rs b/src/write/compression.rs
index 36da4b9..5ad342e 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -149,7 +149,7 @@ impl<I: Iterator<Item = Result<Page>>> FallibleStreamingIterator for Compressor<
     type Error = Error;
 
     fn advance(&mut self) -> std::result::Result<(), Self::Error> {
-        let mut compressed_buffer = if let Some(page) = self.current.as_mut() {
+        let mut compressed_buffer = if let Some(mut page) = self.current.take() {
             std::mem::take(page.buffer())
         } else {
             std::mem::take(&mut self.buffer)
-- 
2.43.0


From 44eb811e5cc92a65aa5e6a450ce19c0f45f57d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 49/67] fix: interrupted reads of page and bloom filter headers
 were errors

---
 src/bloom_filter/read.rs |  4 ++--
 src/read/metadata.rs     |  3 ++-
 src/read/mod.rs          | 14 ++++++++++++++
 src/read/page/reader.rs  |  3 ++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index a3b7352..629158d 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -5,7 +5,7 @@ use parquet_format_safe::{
     BloomFilterHeader, SplitBlockAlgorithm, Uncompressed,
 };
 
-use crate::{error::Error, metadata::ColumnChunkMetaData};
+use crate::{error::Error, metadata::ColumnChunkMetaData, read::RetryInterrupted};
 
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
@@ -27,7 +27,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(&mut reader, usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    let mut prot = TCompactInputProtocol::new(RetryInterrupted(&mut reader), usize::MAX); // max is ok since `BloomFilterHeader` never allocates
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 30ba10e..274341a 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -11,6 +11,7 @@ use super::super::{
     metadata::FileMetaData, DEFAULT_FOOTER_READ_SIZE, FOOTER_SIZE, HEADER_SIZE, PARQUET_MAGIC,
 };
 
+use super::RetryInterrupted;
 use crate::error::{Error, Result};
 
 pub(super) fn metadata_len(buffer: &[u8], len: usize) -> i32 {
@@ -105,7 +106,7 @@ pub fn read_metadata_with_size<R: Read + Seek>(
 
 /// Parse loaded metadata bytes
 pub fn deserialize_metadata<R: Read>(reader: R, max_size: usize) -> Result<FileMetaData> {
-    let mut prot = TCompactInputProtocol::new(reader, max_size);
+    let mut prot = TCompactInputProtocol::new(RetryInterrupted(reader), max_size);
     let metadata = TFileMetaData::read_from_in_protocol(&mut prot)?;
 
     FileMetaData::try_from_thrift(metadata)
diff --git a/src/read/mod.rs b/src/read/mod.rs
index 499147c..73c98d1 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -27,6 +27,20 @@ use crate::{error::Result, metadata::FileMetaData};
 
 pub use indexes::{read_columns_indexes, read_pages_locations};
 
+/// A [`Read`] that retries reads that were interrupted, which the thrift protocol does not do.
+pub(crate) struct RetryInterrupted<R: Read>(pub R);
+
+impl<R: Read> Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+}
+
 /// Filters row group metadata to only those row groups,
 /// for which the predicate function returns true
 pub fn filter_row_groups(
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index c586761..0c25b30 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -15,6 +15,7 @@ use crate::page::{
 use crate::parquet_bridge::Encoding;
 
 use super::PageIterator;
+use crate::read::RetryInterrupted;
 
 /// This meta is a small part of [`ColumnChunkMetaData`].
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -170,7 +171,7 @@ pub(super) fn read_page_header<R: Read>(
     reader: &mut R,
     max_size: usize,
 ) -> Result<ParquetPageHeader> {
-    let mut prot = TCompactInputProtocol::new(reader, max_size);
+    let mut prot = TCompactInputProtocol::new(RetryInterrupted(reader), max_size);
     let page_header = ParquetPageHeader::read_from_in_protocol(&mut prot)?;
     Ok(page_header)
 }
-- 
2.43.0


From f5bb10e8b313e8cab3085e2c65e2c317ff2ee949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 50/67] fix: interrupted writes of headers and metadata were
 errors

---
 src/write/column_chunk.rs  |  4 ++--
 src/write/file.rs          |  4 ++--
 src/write/indexes/write.rs |  5 +++--
 src/write/mod.rs           | 15 +++++++++++++++
 src/write/page.rs          |  3 ++-
 5 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index fa7709a..f9c98fd 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -26,7 +26,7 @@ use super::page::write_page_async;
 
 use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
-use super::DynStreamingIterator;
+use super::{DynStreamingIterator, WriteAll};
 
 pub fn write_column_chunk<'a, W, E>(
     writer: &mut W,
@@ -54,7 +54,7 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputProtocol::new(writer);
+    let mut protocol = TCompactOutputProtocol::new(WriteAll(writer));
     bytes_written += column_chunk
         .meta_data
         .as_ref()
diff --git a/src/write/file.rs b/src/write/file.rs
index 8944971..cea3ca6 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -15,7 +15,7 @@ use super::page::PageWriteSpec;
 use super::{row_group::write_row_group, RowGroupIter, WriteOptions};
 
 pub use crate::metadata::KeyValue;
-use crate::write::State;
+use crate::write::{State, WriteAll};
 
 pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
     writer.write_all(&PARQUET_MAGIC)?;
@@ -24,7 +24,7 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
 
 pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputProtocol::new(WriteAll(&mut writer));
     let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
 
     // Write footer
diff --git a/src/write/indexes/write.rs b/src/write/indexes/write.rs
index 3bc3c67..85f2390 100644
--- a/src/write/indexes/write.rs
+++ b/src/write/indexes/write.rs
@@ -11,12 +11,13 @@ use crate::error::Result;
 pub use crate::metadata::KeyValue;
 
 use crate::write::page::PageWriteSpec;
+use crate::write::WriteAll;
 
 use super::serialize::{serialize_column_index, serialize_offset_index};
 
 pub fn write_column_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(writer);
+    let mut protocol = TCompactOutputProtocol::new(WriteAll(writer));
     Ok(index.write_to_out_protocol(&mut protocol)? as u64)
 }
 
@@ -33,7 +34,7 @@ pub async fn write_column_index_async<W: AsyncWrite + Unpin + Send>(
 
 pub fn write_offset_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(&mut *writer);
+    let mut protocol = TCompactOutputProtocol::new(WriteAll(writer));
     Ok(index.write_to_out_protocol(&mut protocol)? as u64)
 }
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 7894dbc..87c30d8 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -21,6 +21,8 @@ pub use file::{write_metadata_sidecar, FileWriter};
 
 pub use row_group::ColumnOffsetsMetadata;
 
+use std::io::Write;
+
 use crate::page::CompressedPage;
 
 pub type RowGroupIter<'a, E> =
@@ -42,6 +44,19 @@ pub enum Version {
     V2,
 }
 
+/// A [`Write`] whose writes are never partial nor interrupted, which the thrift protocol relies on.
+struct WriteAll<W: Write>(W);
+
+impl<W: Write> Write for WriteAll<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write_all(buf).map(|()| buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
 /// Used to recall the state of the parquet writer - whether sync or async.
 #[derive(PartialEq)]
 enum State {
diff --git a/src/write/page.rs b/src/write/page.rs
index 8c2d8bb..bd5c318 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -17,6 +17,7 @@ use crate::page::{
     CompressedDataPage, CompressedDictPage, CompressedPage, DataPageHeader, ParquetPageHeader,
 };
 use crate::statistics::Statistics;
+use crate::write::WriteAll;
 
 pub(crate) fn is_data_page(page: &PageWriteSpec) -> bool {
     page.header.type_ == PageType::DATA_PAGE || page.header.type_ == PageType::DATA_PAGE_V2
@@ -208,7 +209,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
 
 /// writes the page header into `writer`, returning the number of bytes used in the process.
 fn write_page_header<W: Write>(mut writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
+    let mut protocol = TCompactOutputProtocol::new(WriteAll(&mut writer));
     Ok(header.write_to_out_protocol(&mut protocol)? as u64)
 }
 
-- 
2.43.0


From b4edfcc562c6aeff11c1bfaaaafd5fb063424b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 51/67] fix: the textual form of INTERVAL columns was always
 rejected

---
 src/schema/io_message/from_message.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..a984100 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -66,7 +66,6 @@ fn is_logical_type(s: &str) -> bool {
             | "BSON"
             | "UUID"
             | "UNKNOWN"
-            | "INTERVAL"
     )
 }
 
@@ -611,7 +610,6 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
             _ => unreachable!(),
         })
     }
-- 
2.43.0


From 6a97127233de52f32201203bc99fdd6ea90dc837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 52/67] fix: deeply nested schemas exhausted the stack

---
 src/schema/io_message/from_message.rs | 19 ++++++++++++-------
 src/schema/io_thrift/from_thrift.rs   | 15 ++++++++++++---
 src/schema/mod.rs                     |  4 ++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index a984100..89a235f 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -297,7 +297,7 @@ impl<'a> Parser<'a> {
                     .tokenizer
                     .next()
                     .ok_or_else(|| Error::oos("Expected name, found None"))?;
-                let fields = self.parse_child_types()?;
+                let fields = self.parse_child_types(0)?;
                 Ok(ParquetType::new_root(name.to_string(), fields))
             }
             _ => Err(Error::oos("Message type does not start with 'message'")),
@@ -306,7 +306,10 @@ impl<'a> Parser<'a> {
 
     // Parses child types for a current group type.
     // This is only invoked on root and group types.
-    fn parse_child_types(&mut self) -> Result<Vec<ParquetType>> {
+    fn parse_child_types(&mut self, depth: usize) -> Result<Vec<ParquetType>> {
+        if depth >= MAX_SCHEMA_DEPTH {
+            return Err(Error::oos("The schema is nested too deeply"));
+        }
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
         while let Some(value) = self.tokenizer.next() {
@@ -314,13 +317,13 @@ impl<'a> Parser<'a> {
                 break;
             } else {
                 self.tokenizer.backtrack();
-                vec.push(self.add_type()?);
+                vec.push(self.add_type(depth)?);
             }
         }
         Ok(vec)
     }
 
-    fn add_type(&mut self) -> Result<ParquetType> {
+    fn add_type(&mut self, depth: usize) -> Result<ParquetType> {
         // Parse repetition
         let repetition = self
             .tokenizer
@@ -329,7 +332,9 @@ impl<'a> Parser<'a> {
             .and_then(|v| repetition_from_str(&v.to_uppercase()))?;
 
         match self.tokenizer.next() {
-            Some(group) if group.to_uppercase() == "GROUP" => self.add_group_type(repetition),
+            Some(group) if group.to_uppercase() == "GROUP" => {
+                self.add_group_type(repetition, depth)
+            }
             Some(type_string) => {
                 let physical_type = type_from_str(&type_string.to_uppercase())?;
                 self.add_primitive_type(repetition, physical_type)
@@ -338,7 +343,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
+    fn add_group_type(&mut self, repetition: Repetition, depth: usize) -> Result<ParquetType> {
         // Parse name of the group type
         let name = self
             .tokenizer
@@ -367,7 +372,7 @@ impl<'a> Parser<'a> {
             None
         };
 
-        let fields = self.parse_child_types()?;
+        let fields = self.parse_child_types(depth + 1)?;
 
         Ok(ParquetType::from_converted(
             name.to_string(),
diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 453b53b..f502dba 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -6,6 +6,7 @@ use crate::{
 };
 
 use super::super::types::ParquetType;
+use super::super::MAX_SCHEMA_DEPTH;
 
 impl ParquetType {
     /// Method to convert from Thrift.
@@ -13,7 +14,7 @@ impl ParquetType {
         let mut index = 0;
         let mut schema_nodes = Vec::new();
         while index < elements.len() {
-            let t = from_thrift_helper(elements, index)?;
+            let t = from_thrift_helper(elements, index, 0)?;
             index = t.0;
             schema_nodes.push(t.1);
         }
@@ -32,7 +33,15 @@ impl ParquetType {
 /// The first result is the starting index for the next Type after this one. If it is
 /// equal to `elements.len()`, then this Type is the last one.
 /// The second result is the result Type.
-fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize, ParquetType)> {
+fn from_thrift_helper(
+    elements: &[SchemaElement],
+    index: usize,
+    depth: usize,
+) -> Result<(usize, ParquetType)> {
+    if depth > MAX_SCHEMA_DEPTH {
+        return Err(Error::oos("The schema is nested too deeply"));
+    }
+
     // Whether or not the current node is root (message type).
     // There is only one message type node in the schema tree.
     let is_root_node = index == 0;
@@ -97,7 +106,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-                let child_result = from_thrift_helper(elements, next_index)?;
+                let child_result = from_thrift_helper(elements, next_index, depth + 1)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
             }
diff --git a/src/schema/mod.rs b/src/schema/mod.rs
index 8610084..930deea 100644
--- a/src/schema/mod.rs
+++ b/src/schema/mod.rs
@@ -6,3 +6,7 @@ pub mod io_message;
 pub mod io_thrift;
 
 pub mod types;
+
+/// The number of nested groups from which a schema is rejected when it is read: schemas are
+/// processed recursively and an input must not be able to exhaust the stack.
+pub(crate) const MAX_SCHEMA_DEPTH: usize = 256;
-- 
2.43.0


From 4ae6aa7c102c7b84b56fed35ca29b645771b193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 53/67] fix: memory was reserved for lengths found in files
 before reading their data

---
 src/bloom_filter/read.rs        | 8 ++++++--
 src/read/column/mod.rs          | 4 ++--
 src/read/column/stream.rs       | 4 ++--
 src/read/indexes/read.rs        | 3 ++-
 src/read/mod.rs                 | 3 +++
 src/read/page/indexed_reader.rs | 3 ++-
 src/read/page/reader.rs         | 4 ++--
 src/read/page/stream.rs         | 3 ++-
 8 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 629158d..c85f2b3 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -5,7 +5,11 @@ use parquet_format_safe::{
     BloomFilterHeader, SplitBlockAlgorithm, Uncompressed,
 };
 
-use crate::{error::Error, metadata::ColumnChunkMetaData, read::RetryInterrupted};
+use crate::{
+    error::Error,
+    metadata::ColumnChunkMetaData,
+    read::{RetryInterrupted, MAX_RESERVE},
+};
 
 /// Reads the bloom filter associated to [`ColumnChunkMetaData`] into `bitset`.
 /// Results in an empty `bitset` if there is no associated bloom filter or the algorithm is not supported.
@@ -42,7 +46,7 @@ pub fn read<R: Read + Seek>(
     let length: usize = header.num_bytes.try_into()?;
 
     bitset.clear();
-    bitset.try_reserve(length)?;
+    bitset.try_reserve(length.min(MAX_RESERVE))?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
     if bitset.len() != length {
         return Err(Error::oos("The bloom filter is shorter than its size"));
diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index 0fa0b82..80ce9af 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -6,7 +6,7 @@ use crate::metadata::{ColumnChunkMetaData, RowGroupMetaData};
 use crate::page::CompressedPage;
 use crate::schema::types::ParquetType;
 
-use super::{get_field_columns, get_page_iterator, PageFilter, PageReader};
+use super::{get_field_columns, get_page_iterator, PageFilter, PageReader, MAX_RESERVE};
 
 #[cfg(feature = "async")]
 #[cfg_attr(docsrs, doc(cfg(feature = "async")))]
@@ -196,7 +196,7 @@ where
     reader.seek(std::io::SeekFrom::Start(start))?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
+    chunk.try_reserve((length as usize).min(MAX_RESERVE))?;
     reader.by_ref().take(length).read_to_end(&mut chunk)?;
     if chunk.len() as u64 != length {
         return Err(Error::oos("The column chunk is shorter than its size"));
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index 9a3bb2a..f337880 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -3,7 +3,7 @@ use futures::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt};
 
 use crate::error::Error;
 use crate::metadata::ColumnChunkMetaData;
-use crate::read::get_field_columns;
+use crate::read::{get_field_columns, MAX_RESERVE};
 
 /// Reads a single column chunk into memory asynchronously
 pub async fn read_column_async<'b, R, F>(
@@ -19,7 +19,7 @@ where
     reader.seek(std::io::SeekFrom::Start(start)).await?;
 
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
+    chunk.try_reserve((length as usize).min(MAX_RESERVE))?;
     reader.take(length as u64).read_to_end(&mut chunk).await?;
     if chunk.len() as u64 != length {
         return Err(Error::oos("The column chunk is shorter than its size"));
diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 65705b3..4b7db90 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -7,6 +7,7 @@ use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex,
 use crate::error::Error;
 use crate::indexes::Index;
 use crate::metadata::ColumnChunkMetaData;
+use crate::read::MAX_RESERVE;
 
 use super::deserialize::deserialize;
 
@@ -54,7 +55,7 @@ fn read_range<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     data.clear();
-    data.try_reserve(length)?;
+    data.try_reserve(length.min(MAX_RESERVE))?;
     reader.by_ref().take(length as u64).read_to_end(data)?;
     if data.len() != length {
         return Err(Error::oos("The index is shorter than its length"));
diff --git a/src/read/mod.rs b/src/read/mod.rs
index 73c98d1..a27fbc4 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -27,6 +27,9 @@ use crate::{error::Result, metadata::FileMetaData};
 
 pub use indexes::{read_columns_indexes, read_pages_locations};
 
+/// The most that is reserved ahead of reading data, whose length is not trusted before that.
+pub(crate) const MAX_RESERVE: usize = 1024 * 1024;
+
 /// A [`Read`] that retries reads that were interrupted, which the thrift protocol does not do.
 pub(crate) struct RetryInterrupted<R: Read>(pub R);
 
diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index d5af896..e15e30b 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -9,6 +9,7 @@ use crate::{
     metadata::{ColumnChunkMetaData, Descriptor},
     page::{CompressedDictPage, CompressedPage, ParquetPageHeader},
     parquet_bridge::Compression,
+    read::MAX_RESERVE,
 };
 
 use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
@@ -55,7 +56,7 @@ fn read_page<R: Read + Seek>(
 
     // read [header][data] to buffer
     buffer.clear();
-    buffer.try_reserve(length)?;
+    buffer.try_reserve(length.min(MAX_RESERVE))?;
     let bytes_read = reader.by_ref().take(length as u64).read_to_end(buffer)?;
     if bytes_read != length {
         return Err(Error::oos("The page is shorter than its location"));
diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 0c25b30..e577ccb 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -15,7 +15,7 @@ use crate::page::{
 use crate::parquet_bridge::Encoding;
 
 use super::PageIterator;
-use crate::read::RetryInterrupted;
+use crate::read::{RetryInterrupted, MAX_RESERVE};
 
 /// This meta is a small part of [`ColumnChunkMetaData`].
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -206,7 +206,7 @@ pub(super) fn build_page<R: Read>(
     }
 
     buffer.clear();
-    buffer.try_reserve(read_size)?;
+    buffer.try_reserve(read_size.min(MAX_RESERVE))?;
     let bytes_read = reader
         .reader
         .by_ref()
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 8d35b6c..58bfdc1 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -9,6 +9,7 @@ use crate::compression::Compression;
 use crate::error::{Error, Result};
 use crate::metadata::{ColumnChunkMetaData, Descriptor};
 use crate::page::{CompressedPage, ParquetPageHeader};
+use crate::read::MAX_RESERVE;
 
 use super::reader::{finish_page, get_page_header, PageMetaData};
 use super::PageFilter;
@@ -112,7 +113,7 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             // followed by the buffer
             scratch.clear();
-            scratch.try_reserve(read_size)?;
+            scratch.try_reserve(read_size.min(MAX_RESERVE))?;
             let bytes_read = reader
                 .take(read_size as u64)
                 .read_to_end(&mut scratch).await?;
-- 
2.43.0


From edd41454f7db1076893254c187b45be4b2d4b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 54/67] fix: the column index of more than about 64 pages could
 not be read

---
 src/read/indexes/deserialize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..116dae4 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,9 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    // every item of a list takes at least one byte and counts as 8
+    let max_size = data.len() * 8 + 1024;
+    let mut prot = TCompactInputProtocol::new(data, max_size);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
-- 
2.43.0


From 570d71397466cbbd2ca54607069eb19df2ddc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 55/67] fix: files with many small key-value pairs could not be
 read

---
 src/read/metadata.rs | 2 +-
 src/read/stream.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 274341a..ae89f13 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -99,7 +99,7 @@ pub fn read_metadata_with_size<R: Read + Seek>(
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    let max_size = reader.len() * 4 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 463bbf8..9149972 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -88,7 +88,7 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    let max_size = reader.len() * 4 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
-- 
2.43.0


From 7041e4f43e67ca4adf3350d9ae32b91b59a95674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:01 +0000
Subject: [PATCH 56/67] fix: bit-packed levels of v1 pages were read as if they
 were RLE-encoded

---
 src/page/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 904abe2..f54471c 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -419,11 +419,19 @@ pub fn split_buffer_v2(
 /// Splits the page buffer into 3 slices corresponding to (encoded rep levels, encoded def levels, encoded values).
 pub fn split_buffer(page: &DataPage) -> Result<(&[u8], &[u8], &[u8])> {
     match page.header() {
-        DataPageHeader::V1(_) => split_buffer_v1(
-            page.buffer(),
-            page.descriptor.max_rep_level > 0,
-            page.descriptor.max_def_level > 0,
-        ),
+        DataPageHeader::V1(header) => {
+            let has_rep = page.descriptor.max_rep_level > 0;
+            let has_def = page.descriptor.max_def_level > 0;
+            // the encoding of levels that are not stored is irrelevant
+            if (has_rep && header.repetition_level_encoding != Encoding::Rle.into())
+                || (has_def && header.definition_level_encoding != Encoding::Rle.into())
+            {
+                return Err(Error::FeatureNotSupported(
+                    "Levels encoded differently than RLE".to_string(),
+                ));
+            }
+            split_buffer_v1(page.buffer(), has_rep, has_def)
+        }
         DataPageHeader::V2(header) => {
             let def_level_buffer_length: usize = header.definition_levels_byte_length.try_into()?;
             let rep_level_buffer_length: usize = header.repetition_levels_byte_length.try_into()?;
-- 
2.43.0


From 7d79f28e28ffd7f18ec72383d29392e48a609fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 57/67] fix: pages with more than 1 MB of statistics could not
 be read through the index

---
 src/read/page/indexed_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index e15e30b..d108c49 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -64,7 +64,8 @@ fn read_page<R: Read + Seek>(
 
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
-    let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    // its statistics are part of the page that was already read
+    let page_header = read_page_header(&mut reader, length.max(1024 * 1024))?;
     get_page_header(&page_header)?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
-- 
2.43.0


From a959de7348b2ba42472b82dee1b7407e40a03d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 58/67] fix: adding the compressed sizes of a row group does
 not overflow

---
 src/metadata/row_metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/row_metadata.rs b/src/metadata/row_metadata.rs
index 707820d..82039d7 100644
--- a/src/metadata/row_metadata.rs
+++ b/src/metadata/row_metadata.rs
@@ -51,7 +51,8 @@ impl RowGroupMetaData {
         self.columns
             .iter()
             .map(|c| c.compressed_size() as usize)
-            .sum::<usize>()
+            // sizes declared by a malformed file may not add up
+            .fold(0, usize::saturating_add)
     }
 
     /// Method to convert from Thrift.
-- 
2.43.0


From a622dfceecddf0f06799e3d683b8a59a9b26099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 59/67] fix: a delta decoder that met an invalid block can be
 advanced again

---
 src/encoding/delta_bitpacked/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index c154668..d5003bd 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -199,11 +199,11 @@ impl<'a> Decoder<'a> {
             x
         } else {
             // load next block
-            self.values = &self.values[current_block.consumed_bytes..];
-            self.consumed_bytes += current_block.consumed_bytes;
+            let consumed_bytes = current_block.consumed_bytes;
+            let values = &self.values[consumed_bytes..];
 
             let next_block = Block::try_new(
-                self.values,
+                values,
                 self.num_mini_blocks,
                 self.values_per_mini_block,
                 self.values_remaining,
@@ -213,6 +213,9 @@ impl<'a> Decoder<'a> {
                     let delta = next_block
                         .next()
                         .ok_or_else(|| Error::oos("Missing block"))?;
+                    // only a valid block replaces the current one
+                    self.values = values;
+                    self.consumed_bytes += consumed_bytes;
                     self.current_block = Some(next_block);
                     delta
                 }
-- 
2.43.0


From 6eb15eb6b2ba21dce5d522ec43bce090229ce512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 60/67] fix: parsing a primitive field with a logical type of
 groups panicked

---
 src/schema/io_message/from_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 89a235f..4632762 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -615,7 +615,12 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            _ => unreachable!(),
+            other => {
+                return Err(Error::oos(format!(
+                    "Logical type {} is not valid for a primitive type",
+                    other
+                )))
+            }
         })
     }
 }
-- 
2.43.0


From 364fc00e22c61a18508e9ef64a494651cd7ca5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 61/67] fix: skipping an unknown field of a bloom filter header
 allocated whatever its length

---
 src/bloom_filter/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index c85f2b3..a1ce5d7 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -31,7 +31,8 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(RetryInterrupted(&mut reader), usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    // `BloomFilterHeader` never allocates, but skipping fields that it does not know does
+    let mut prot = TCompactInputProtocol::new(RetryInterrupted(&mut reader), MAX_RESERVE);
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
-- 
2.43.0


From 8f43e43c33336da61df528988d223135ec7ee82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 62/67] fix: the precision of decimals of more than 128 bytes
 was not limited

---
 src/schema/types/spec.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index ce5772b..81aea12 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -41,15 +41,12 @@ fn check_decimal_invariants(
         }
         PhysicalType::FixedLenByteArray(length) => {
             let oos_error = || Error::oos(format!("Byte Array length {} out of spec", length));
-            let max_precision = (2f64.powi(
-                (*length as i32)
-                    .checked_mul(8)
-                    .ok_or_else(oos_error)?
-                    .checked_sub(1)
-                    .ok_or_else(oos_error)?,
-            ) - 1f64)
-                .log10()
-                .floor() as usize;
+            // the largest number of digits such that any number with them is less than `2^bits`
+            let bits = length
+                .checked_mul(8)
+                .and_then(|bits| bits.checked_sub(1))
+                .ok_or_else(oos_error)?;
+            let max_precision = (bits as f64 * 2f64.log10()).floor() as usize;
 
             if precision > max_precision {
                 return Err(Error::oos(format!(
-- 
2.43.0


From bd3589454184d9d9a3cd1c3dd5c7f6c4b293514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:00 +0000
Subject: [PATCH 63/67] fix: reject a schema message whose closing brace is
 missing

---
 src/schema/io_message/from_message.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 4632762..ec9c7a1 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -312,15 +312,16 @@ impl<'a> Parser<'a> {
         }
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
-        while let Some(value) = self.tokenizer.next() {
-            if value == "}" {
-                break;
-            } else {
-                self.tokenizer.backtrack();
-                vec.push(self.add_type(depth)?);
+        loop {
+            match self.tokenizer.next() {
+                Some("}") => return Ok(vec),
+                Some(_) => {
+                    self.tokenizer.backtrack();
+                    vec.push(self.add_type(depth)?);
+                }
+                None => return Err(Error::oos("Expected '}', but no token found (None)")),
             }
         }
-        Ok(vec)
     }
 
     fn add_type(&mut self, depth: usize) -> Result<ParquetType> {
-- 
2.43.0


From d952adcecf14c8d97875da056b13e7314d2a92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 64/67] fix: reject a field id of a schema message that is not
 an i32

---
 src/schema/io_message/from_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index ec9c7a1..28067b1 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -367,7 +367,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected field id, found None",
+                "Failed to parse field id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
@@ -452,7 +456,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected field id, found None",
+                "Failed to parse field id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
-- 
2.43.0


From d2c6f32866f5b46d21327b4d60fa8c2caae74581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:11 +0000
Subject: [PATCH 65/67] fix: read compressed v2 pages without values whose
 values section is empty

---
 src/read/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index ac9bfa3..9dee48d 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -39,7 +39,10 @@ fn decompress_v2(
 
         (buffer[..offset]).copy_from_slice(&compressed[..offset]);
 
-        compression::decompress(compression, &compressed[offset..], &mut buffer[offset..])?;
+        // a page without values (i.e. only nulls) may have nothing to decompress
+        if offset < buffer.len() || offset < compressed.len() {
+            compression::decompress(compression, &compressed[offset..], &mut buffer[offset..])?;
+        }
     } else {
         if buffer.len() != compressed.len() {
             return Err(Error::OutOfSpec(
-- 
2.43.0


From 412afd43e912ade2302132ecd4d2f64b5d01856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:24 +0000
Subject: [PATCH 66/67] fix: refuse metadata and indexes whose length does not
 fit in the file

---
 src/write/file.rs   | 6 +++---
 src/write/stream.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index cea3ca6..a44477d 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -25,7 +25,7 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
 pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
     let mut protocol = TCompactOutputProtocol::new(WriteAll(&mut writer));
-    let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
+    let metadata_len: i32 = metadata.write_to_out_protocol(&mut protocol)?.try_into()?;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
@@ -197,7 +197,7 @@ impl<W: Write> FileWriter<W> {
                             column.column_index_offset = Some(offset as i64);
                             self.offset += write_column_index(&mut self.writer, pages)?;
                             let length = self.offset - offset;
-                            column.column_index_length = Some(length as i32);
+                            column.column_index_length = Some(length.try_into()?);
                             Result::Ok(())
                         },
                     )?;
@@ -218,7 +218,7 @@ impl<W: Write> FileWriter<W> {
                         let offset = self.offset;
                         column.offset_index_offset = Some(offset as i64);
                         self.offset += write_offset_index(&mut self.writer, pages)?;
-                        column.offset_index_length = Some((self.offset - offset) as i32);
+                        column.offset_index_length = Some((self.offset - offset).try_into()?);
                         Result::Ok(())
                     })?;
                 Result::Ok(())
diff --git a/src/write/stream.rs b/src/write/stream.rs
index 4f450e9..c8655da 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -26,7 +26,10 @@ async fn end_file<W: AsyncWrite + Unpin + Send>(
 ) -> Result<u64> {
     // Write file metadata
     let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_stream_protocol(&mut protocol).await? as i32;
+    let metadata_len: i32 = metadata
+        .write_to_out_stream_protocol(&mut protocol)
+        .await?
+        .try_into()?;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
@@ -166,7 +169,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
                     column.column_index_offset = Some(offset as i64);
                     self.offset += write_column_index_async(&mut self.writer, pages).await?;
                     let length = self.offset - offset;
-                    column.column_index_length = Some(length as i32);
+                    column.column_index_length = Some(length.try_into()?);
                 }
             }
         };
@@ -177,7 +180,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
                 let offset = self.offset;
                 column.offset_index_offset = Some(offset as i64);
                 self.offset += write_offset_index_async(&mut self.writer, pages).await?;
-                column.offset_index_length = Some((self.offset - offset) as i32);
+                column.offset_index_length = Some((self.offset - offset).try_into()?);
             }
         }
 
-- 
2.43.0


From 8a223eb9960b02d1d957f6d356d05801169df240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:00 +0000
Subject: [PATCH 67/67] fix: end the runs of a hybrid stream after an invalid
 run header

---
 src/encoding/hybrid_rle/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 9241908..19f42b0 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -38,7 +38,11 @@ impl<'a> Iterator for Decoder<'a> {
 
         let (indicator, consumed) = match uleb128::decode(self.values) {
             Ok((indicator, consumed)) => (indicator, consumed),
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // nothing can be decoded past it
+                self.values = &[];
+                return Some(Err(e));
+            }
         };
         self.values = &self.values[consumed..];
         if self.values.is_empty() {
-- 
2.43.0

