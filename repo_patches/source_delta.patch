From c025cdff748974c61cb7840dd21ac06153c5d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 01/16] fix: read object key offsets bytewise instead of
 through misaligned u32 slices

Key offsets live at arbitrary byte positions, so building a &[u32] over them
is undefined behaviour and aborts in builds with debug assertions.
---
 src/builder/object.rs | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..f232ca5 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -11,6 +11,7 @@ use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
+use std::cmp::Ordering;
 use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
@@ -71,16 +72,13 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             return true;
         }
 
-        let begin = self.start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
-
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
 
-        for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+        for i in 0..self.element_count as usize - 1 {
+            let cur_offset = Self::read_key_offset(bytes, i, self.start_pos);
+            let next_offset = Self::read_key_offset(bytes, i + 1, self.start_pos);
+            let cur_key = Self::read_key_by_offset(bytes, cur_offset, self.start_pos);
+            let next_key = Self::read_key_by_offset(bytes, next_offset, self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -153,21 +151,30 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn binary_search(target: &str, bytes: &[u8], start_pos: usize, value_count: usize) -> usize {
-        let begin = start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + value_count * KEY_OFFSET_SIZE;
-
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
+        let mut left = 0;
+        let mut right = value_count;
+
+        while left < right {
+            let mid = left + (right - left) / 2;
+            let key_offset = Self::read_key_offset(bytes, mid, start_pos);
+            let key = Self::read_key_by_offset(bytes, key_offset, start_pos);
+            match cmp_key(key, target) {
+                Ordering::Less => left = mid + 1,
+                Ordering::Greater => right = mid,
+                Ordering::Equal => return mid,
+            }
+        }
 
-        let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
-            cmp_key(key, target)
-        });
+        left
+    }
 
-        match found {
-            Ok(v) => v,
-            Err(v) => v,
-        }
+    // The key offsets are stored at arbitrary positions, they must not be read through a `u32` pointer.
+    #[inline]
+    fn read_key_offset(bytes: &[u8], index: usize, start_pos: usize) -> usize {
+        let pos = start_pos + ELEMENT_COUNT_SIZE + index * KEY_OFFSET_SIZE;
+        let key_offset_bytes = &bytes[pos..pos + KEY_OFFSET_SIZE];
+        // SAFETY: The `key_offset_bytes` must be valid because the slice operation always takes 4 bytes.
+        u32::from_le_bytes(key_offset_bytes.try_into().unwrap()) as usize
     }
 
     #[inline]
-- 
2.43.0


From 39c0b4c5e2b13fea49f486e16147a99471d225b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 02/16] fix: initialize the inlined field of null array
 elements

The value entry of a null element kept whatever bytes the buffer held before,
so encoding leaked stale memory and was not deterministic.
---
 src/builder/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..0608189 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -157,7 +157,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_null(&mut self) -> BuildResult<()> {
         // null can be inlined
-        self.push_value(DataType::Null, |_, _, _| Ok(()))
+        let f = |bytes: &mut Vec<u8>, _offset: u32, value_entry_pos: usize| {
+            bytes.write_offset(0, value_entry_pos + DATA_TYPE_SIZE);
+            Ok(())
+        };
+        self.push_value(DataType::Null, f)
     }
 
     #[inline]
-- 
2.43.0


From 06aec881185be4bd6adfb1056e1313078a2ed2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:20 +0000
Subject: [PATCH 03/16] fix: refuse to push more elements than declared

Pushing past the declared element count panicked or overwrote encoded data.
This is also what happened for JSON arrays and objects with more than 65535
members, whose count does not fit the format.
---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0608189..98e2fab 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index f232ca5..56562df 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -116,6 +116,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 19aaf9a3b400bb62de2c3b0e919a71349f8e78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 04/16] fix: do not count a nested value or key whose push
 failed

When push_object/push_array failed (nesting limit, failed allocation) or a
too long string was pushed into an object, the parent had already recorded
the element, so it finished into a corrupt document.
---
 src/builder/array.rs  | 22 ++++++++++++++++++++--
 src/builder/object.rs | 28 +++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 98e2fab..d0160c0 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -31,8 +31,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
 
-        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
-        bs.try_reserve(size)?;
+        bs.try_reserve(Self::header_size(element_count))?;
 
         bs.push_data_type(DataType::Array); // type
         bs.skip_size(); // size
@@ -55,6 +54,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         })
     }
 
+    #[inline]
+    pub(crate) const fn header_size(element_count: u16) -> usize {
+        DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize
+    }
+
     #[inline]
     fn finish(&mut self) -> BuildResult<usize> {
         if self.current_depth != self.total_nested_depth.depth() {
@@ -104,7 +108,14 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
+        // The inner builder must not fail any more once the element is counted.
+        let size = InnerObjectBuilder::<Vec<u8>>::header_size(element_count);
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
@@ -116,7 +127,14 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
+        // The inner builder must not fail any more once the element is counted.
+        let size = InnerArrayBuilder::<Vec<u8>>::header_size(element_count);
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            bytes.try_reserve(size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 56562df..e031b9a 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -41,8 +41,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
 
-        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * (element_count as usize);
-        bs.try_reserve(size)?;
+        bs.try_reserve(Self::header_size(element_count))?;
 
         bs.push_data_type(DataType::Object); // type
         bs.skip_size(); // size
@@ -66,6 +65,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         })
     }
 
+    #[inline]
+    pub(crate) const fn header_size(element_count: u16) -> usize {
+        DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * (element_count as usize)
+    }
+
     #[inline]
     fn key_sorted(&mut self) -> bool {
         if self.element_count <= 1 {
@@ -201,7 +205,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
+        // The inner builder must not fail any more once the element is counted.
+        let size = key.len() + KEY_LENGTH_SIZE + InnerObjectBuilder::<Vec<u8>>::header_size(element_count);
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
@@ -209,7 +218,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+
+        // The inner builder must not fail any more once the element is counted.
+        let size = key.len() + KEY_LENGTH_SIZE + InnerArrayBuilder::<Vec<u8>>::header_size(element_count);
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
@@ -217,6 +231,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, key: &str, value: &str) -> BuildResult<()> {
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
+
         let size = KEY_LENGTH_SIZE + key.len() + DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>| {
             bytes.push_data_type(DataType::String);
-- 
2.43.0


From 0d1a125bcf0b64fbfbf96d7fdb6c63c1b6ad2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 05/16] fix: refuse object keys longer than 65535 bytes

The key length field is an uint16, longer keys were stored with a truncated
length and read back as a different key.
---
 src/builder/object.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index e031b9a..aed094a 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -126,6 +126,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
                 actual: self.value_count.saturating_add(1),
             });
         }
+        if key.len() > u16::MAX as usize {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 3e707f885a286169ac7b1ed68cfee13aeeaa7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 06/16] fix: compare yason values by content instead of by
 encoded length

Equal numbers can have encodings of different lengths (10 and 1e1), so
documents with the same content compared unequal.
---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..1c3584b 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -252,7 +252,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -543,7 +543,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From b52665bc07b98cdca7a1d65c8cd9731498a9a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 07/16] fix: select the right element for 'last' subscripts

'last - n' was off by one for the first element, so [last] found nothing in a
one-element array, and empty arrays underflowed (a panic with overflow checks,
an out-of-bounds error or unrelated bytes without).
---
 src/path/query.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..f0a76ec 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
@@ -404,6 +404,10 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
         Some((b, e))
     }
 
+    if len == 0 {
+        return None;
+    }
+
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From d1ff7e55fbc28474718bc1ff0068c1d4badda612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 08/16] fix: match range subscripts on non-array values like a
 one-element array

A range that does not include index 0 matched any non-array value, and the
same range gave a different answer inside a subscript list.
---
 src/path/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index f0a76ec..279b9c2 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -201,7 +201,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                 }
             }
             _ => {
-                if find_range(begin, end, 1).is_some() {
+                if matches!(find_range(begin, end, 1), Some((0, _))) {
                     return self.query_internal(value, step_index + 1);
                 }
             }
@@ -380,13 +380,7 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
             },
 
             SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+                if matches!(find_range(left_field, right_field, 1), Some((0, _))) {
                     return true;
                 }
             }
-- 
2.43.0


From 86d168e5e37ca720c7193b14af1a0b9531eb1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 09/16] fix: pretty format values nested deeper than 100 levels

A wrapped query result adds a level to a document at the nesting limit, and
the indentation then ran past the space buffer and panicked.
---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..b4ca248 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut count = level * indent;
+    while count > SPACE_BUF.len() {
+        writer.write_bytes(&SPACE_BUF)?;
+        count -= SPACE_BUF.len();
+    }
+    writer.write_bytes(&SPACE_BUF[..count])?;
     Ok(())
 }
-- 
2.43.0


From 33ae1ff328a060cfaa9bcb829bf6aae296b31e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 10/16] fix: escape all control characters in formatted strings

Control characters without a short escape were written as they are, which is
not valid JSON, so the text could not be parsed back.
---
 src/format/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..358b1c6 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -326,12 +326,22 @@ const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
 const __: &[u8] = b"";
 
+// Escape sequences of the control characters, most of them have no short form.
+#[rustfmt::skip]
+const CC: [&[u8]; 32] = [
+    b"\\u0000", b"\\u0001", b"\\u0002", b"\\u0003", b"\\u0004", b"\\u0005", b"\\u0006", b"\\u0007",
+    b"\\u0008", b"\\u0009", b"\\u000a", b"\\u000b", b"\\u000c", b"\\u000d", b"\\u000e", b"\\u000f",
+    b"\\u0010", b"\\u0011", b"\\u0012", b"\\u0013", b"\\u0014", b"\\u0015", b"\\u0016", b"\\u0017",
+    b"\\u0018", b"\\u0019", b"\\u001a", b"\\u001b", b"\\u001c", b"\\u001d", b"\\u001e", b"\\u001f",
+];
+
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    CC[0], CC[1], CC[2], CC[3], CC[4], CC[5], CC[6], CC[7], BB, TT, NN, CC[11], FF, RR, CC[14], CC[15], // 0
+    CC[16], CC[17], CC[18], CC[19], CC[20], CC[21], CC[22], CC[23], CC[24], CC[25], CC[26], CC[27], CC[28], CC[29],
+    CC[30], CC[31], // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 0d46856e70451f6e3169ca34db37ec4b3119983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:54 +0000
Subject: [PATCH 11/16] fix: report build errors of query results instead of
 panicking

A query selecting more than 65535 values into a result buffer made the array
builder fail with an error that the conversion declared unreachable.
---
 src/yason/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 1c3584b..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From 90a7ce220cfdcb861f7d201e9be3baf5f5e3879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 12/16] fix: fail instead of aborting when a long number cannot
 be buffered

Converting a JSON number with more than 256 characters grew the text buffer
infallibly, which aborts the process when memory is exhausted.
---
 src/json.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index ce41127..f6b8919 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -6,6 +6,7 @@ use crate::{
 };
 use decimal_rs::DecimalParseError;
 use serde_json::{Map, Value};
+use std::collections::TryReserveError;
 use std::fmt::Write;
 use std::str::FromStr;
 
@@ -137,9 +138,33 @@ fn write_object<T: ObjBuilder>(
 
 #[inline]
 fn number2decimal(val: &serde_json::Number, buf: &mut String) -> BuildResult<Number> {
+    // A number may be of any length, so the buffer must not grow infallibly.
+    struct TryWriter<'a> {
+        buf: &'a mut String,
+        error: Option<TryReserveError>,
+    }
+
+    impl Write for TryWriter<'_> {
+        #[inline]
+        fn write_str(&mut self, s: &str) -> std::fmt::Result {
+            self.buf.try_reserve(s.len()).map_err(|e| {
+                self.error = Some(e);
+                std::fmt::Error
+            })?;
+            self.buf.push_str(s);
+            Ok(())
+        }
+    }
+
     buf.clear();
     buf.try_reserve(256)?;
-    write!(buf, "{}", val).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;
+    let mut writer = TryWriter { buf, error: None };
+    if write!(writer, "{}", val).is_err() {
+        return Err(writer.error.map_or(
+            BuildError::NumberError(NumberError::FormatError),
+            BuildError::TryReserveError,
+        ));
+    }
     Number::from_str(buf.as_str()).map_or_else(
         |e| match e {
             DecimalParseError::Underflow => Ok(Number::ZERO),
-- 
2.43.0


From 8adc439617adf3c24b32137016cd24cbe64ac473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 13/16] fix: refuse objects and arrays whose size does not fit
 the format

The size field is an int32, larger documents were finished with a wrapped
size that readers reject or misread.
---
 src/builder/array.rs  | 3 +++
 src/builder/mod.rs    | 2 ++
 src/builder/object.rs | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index d0160c0..32a0d69 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -73,6 +73,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
+        if total_size > i32::MAX as usize {
+            return Err(BuildError::TooLarge(total_size));
+        }
         bytes.write_total_size(total_size as i32, self.start_pos - ARRAY_SIZE);
 
         self.total_nested_depth.decrease();
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..efbe146 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -44,6 +44,7 @@ pub enum BuildError {
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
+    TooLarge(usize),
 }
 
 impl Display for BuildError {
@@ -61,6 +62,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::TooLarge(e) => write!(f, "object or array too large, size is {}", e),
         }
     }
 }
diff --git a/src/builder/object.rs b/src/builder/object.rs
index aed094a..6fbba15 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -104,6 +104,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
+        if total_size > i32::MAX as usize {
+            return Err(BuildError::TooLarge(total_size));
+        }
         bytes.write_total_size(total_size as i32, self.start_pos - OBJECT_SIZE);
 
         self.total_nested_depth.decrease();
-- 
2.43.0


From f7c6381c236bd9354c6b9ed8a721949241677dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 14/16] fix: do not count whitespace after a name in a path as
 part of the name

'$.a .b' looked for a key 'a ', and '$.count ()' was refused.
---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..37a3236 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -393,19 +393,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From ca43a7e1653370fa481dd9ef3b21a9935f4de9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 15/16] fix: match array steps on non-array values without
 recursion

---
 src/path/query.rs | 50 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 279b9c2..45a68d3 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -38,6 +38,18 @@ impl<'a, 'b> Selector<'a, 'b> {
     ) -> YasonResult<bool> {
         debug_assert!(step_index <= self.steps.len());
 
+        // A value that is not an array stays where it is while array steps match it, so that
+        // a path with many of them does not need a stack frame for each.
+        let mut step_index = step_index;
+        if value.data_type() != DataType::Array {
+            while let Some(Step::Array(arr_step)) = self.steps.get(step_index) {
+                if !non_array_match(arr_step) {
+                    return Ok(false);
+                }
+                step_index += 1;
+            }
+        }
+
         if step_index == self.steps.len() {
             if !self.for_exists {
                 if !self.with_wrapper && !self.query_buf.is_empty() {
@@ -143,11 +155,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if index == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -168,11 +176,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if minus == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
 
         Ok(false)
@@ -200,11 +204,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => {
-                if matches!(find_range(begin, end, 1), Some((0, _))) {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -260,11 +260,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     arr_steps_index += 1;
                 }
             }
-            _ => {
-                if non_array_relaxed_match(arr_steps) {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -285,7 +281,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => return self.query_internal(value, step_index + 1),
+            _ => {}
         }
 
         Ok(false)
@@ -362,6 +358,18 @@ impl<'a, 'b> Selector<'a, 'b> {
     }
 }
 
+/// Does the array step select a value that is not an array, taken as an array of one element?
+#[inline]
+fn non_array_match(arr_step: &ArrayStep) -> bool {
+    match arr_step {
+        ArrayStep::Index(index) => *index == 0,
+        ArrayStep::Last(minus) => *minus == 0,
+        ArrayStep::Range(begin, end) => matches!(find_range(begin, end, 1), Some((0, _))),
+        ArrayStep::Multiple(arr_steps) => non_array_relaxed_match(arr_steps),
+        ArrayStep::Wildcard => true,
+    }
+}
+
 #[inline]
 fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
     for step in steps {
-- 
2.43.0


From f2c6d06bc9ad00cb74c02f7741b61ac84358c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 16/16] fix: parse lists of subscripts without recursion

---
 src/path/parse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 37a3236..703b74d 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -209,7 +209,7 @@ impl<'a> PathParser<'a> {
             }
             _ => {
                 let mut steps = Vec::new();
-                self.parse_array_cell(&mut steps)?;
+                while self.parse_array_cell(&mut steps)? {}
                 debug_assert!(!steps.is_empty());
                 if steps.len() == 1 {
                     // SAFETY: steps.len() == 1
@@ -235,8 +235,9 @@ impl<'a> PathParser<'a> {
         Ok(())
     }
 
+    /// Returns true if another cell follows.
     #[inline]
-    fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
+    fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<bool> {
         let begin = self.parse_last_or_index()?;
         steps
             .try_reserve(std::mem::size_of::<Step>())
@@ -257,9 +258,9 @@ impl<'a> PathParser<'a> {
         if self.peek() == Some(COMMA) {
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
+            return Ok(true);
         }
-        Ok(())
+        Ok(false)
     }
 
     #[inline]
-- 
2.43.0

