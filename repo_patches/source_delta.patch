From d677365eaceb096af604bcbb184166fcd2e0070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 01/15] fix: read key offsets as bytes instead of through a
 misaligned u32 slice

---
 src/builder/object.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..3d336c5 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -75,12 +75,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
 
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
+        let key_offsets = Self::key_offsets(&bytes[begin..end]);
 
         for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+            let cur_key = Self::read_key_by_offset(bytes, u32::from_le_bytes(key_offsets[i]) as usize, self.start_pos);
+            let next_key =
+                Self::read_key_by_offset(bytes, u32::from_le_bytes(key_offsets[i + 1]) as usize, self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -156,11 +156,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let begin = start_pos + ELEMENT_COUNT_SIZE;
         let end = begin + value_count * KEY_OFFSET_SIZE;
 
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
+        let key_offsets = Self::key_offsets(&bytes[begin..end]);
 
         let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
+            let key = Self::read_key_by_offset(bytes, u32::from_le_bytes(*key_offset) as usize, start_pos);
             cmp_key(key, target)
         });
 
@@ -170,6 +169,20 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         }
     }
 
+    /// Views the bytes as little-endian key offsets. The bytes may start at any address, so they can not
+    /// be viewed as `[u32]`.
+    #[inline]
+    fn key_offsets(bytes: &[u8]) -> &[[u8; KEY_OFFSET_SIZE]] {
+        debug_assert!(bytes.len() % KEY_OFFSET_SIZE == 0);
+        // SAFETY: An array of bytes has the alignment of a byte.
+        unsafe {
+            std::slice::from_raw_parts(
+                bytes.as_ptr() as *const [u8; KEY_OFFSET_SIZE],
+                bytes.len() / KEY_OFFSET_SIZE,
+            )
+        }
+    }
+
     #[inline]
     fn read_key_by_offset(bytes: &[u8], key_offset: usize, start_pos: usize) -> &str {
         let key_index = key_offset + start_pos;
-- 
2.43.0


From dd369c799f73f7015ef4318f40aeb997c7b7bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 02/15] fix: write the unused value of a null array entry
 instead of leaving it uninitialised

---
 src/builder/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..0608189 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -157,7 +157,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_null(&mut self) -> BuildResult<()> {
         // null can be inlined
-        self.push_value(DataType::Null, |_, _, _| Ok(()))
+        let f = |bytes: &mut Vec<u8>, _offset: u32, value_entry_pos: usize| {
+            bytes.write_offset(0, value_entry_pos + DATA_TYPE_SIZE);
+            Ok(())
+        };
+        self.push_value(DataType::Null, f)
     }
 
     #[inline]
-- 
2.43.0


From 3893588b2471011af9de4f7b1c5c85ed7a5b62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 03/15] fix: select the first element by last-n and nothing
 from an empty array

---
 src/path/query.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..f0a76ec 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
@@ -404,6 +404,10 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
         Some((b, e))
     }
 
+    if len == 0 {
+        return None;
+    }
+
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From 1a24270345c7d99553508608159402901b6471e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 04/15] fix: match a range against a value that is not an array
 only when it covers that value

---
 src/path/query.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index f0a76ec..52c9fbd 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -380,13 +380,8 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
             },
 
             SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+                // a value that is not an array is an array of one element
+                if find_range(left_field, right_field, 1).is_some() {
                     return true;
                 }
             }
@@ -401,7 +396,7 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
-        Some((b, e))
+        (b <= e).then_some((b, e))
     }
 
     if len == 0 {
-- 
2.43.0


From d38f4eb970cbfc8d325c63c218c0834fdd6aa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 05/15] fix: keep whitespace after an unquoted name out of the
 name

---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..37a3236 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -393,19 +393,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From 56e18a9f3ceac2d210026e525a737cfe072a3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 06/15] fix: parse a subscript list in a loop so that a long
 one does not exhaust the stack

---
 src/path/parse.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 37a3236..5427d2d 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -237,29 +237,30 @@ impl<'a> PathParser<'a> {
 
     #[inline]
     fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
-        let begin = self.parse_last_or_index()?;
-        steps
-            .try_reserve(std::mem::size_of::<Step>())
-            .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
+        loop {
+            let begin = self.parse_last_or_index()?;
+            steps
+                .try_reserve(std::mem::size_of::<Step>())
+                .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
 
-        self.eat_whitespaces();
-        if self.has_keyword(TO) {
-            self.advance(TO.len());
             self.eat_whitespaces();
+            if self.has_keyword(TO) {
+                self.advance(TO.len());
+                self.eat_whitespaces();
 
-            let end = self.parse_last_or_index()?;
-            steps.push(SingleStep::Range(begin, end));
-        } else {
-            steps.push(SingleStep::Single(begin));
-        }
+                let end = self.parse_last_or_index()?;
+                steps.push(SingleStep::Range(begin, end));
+            } else {
+                steps.push(SingleStep::Single(begin));
+            }
 
-        self.eat_whitespaces();
-        if self.peek() == Some(COMMA) {
+            self.eat_whitespaces();
+            if self.peek() != Some(COMMA) {
+                return Ok(());
+            }
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
         }
-        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 38c2b4830e624d46650e1e69e5e74ee60d8479b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 07/15] fix: escape every control character in formatted
 strings

---
 src/format/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..74839b4 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -324,14 +324,41 @@ const RR: &[u8] = b"\\r"; // \x0D
 const QU: &[u8] = b"\\\""; // \x22
 const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
+const U00: &[u8] = b"\\u0000"; // \x00
+const U01: &[u8] = b"\\u0001"; // \x01
+const U02: &[u8] = b"\\u0002"; // \x02
+const U03: &[u8] = b"\\u0003"; // \x03
+const U04: &[u8] = b"\\u0004"; // \x04
+const U05: &[u8] = b"\\u0005"; // \x05
+const U06: &[u8] = b"\\u0006"; // \x06
+const U07: &[u8] = b"\\u0007"; // \x07
+const U0B: &[u8] = b"\\u000B"; // \x0B
+const U0E: &[u8] = b"\\u000E"; // \x0E
+const U0F: &[u8] = b"\\u000F"; // \x0F
+const U10: &[u8] = b"\\u0010"; // \x10
+const U11: &[u8] = b"\\u0011"; // \x11
+const U12: &[u8] = b"\\u0012"; // \x12
+const U13: &[u8] = b"\\u0013"; // \x13
+const U14: &[u8] = b"\\u0014"; // \x14
+const U15: &[u8] = b"\\u0015"; // \x15
+const U16: &[u8] = b"\\u0016"; // \x16
+const U17: &[u8] = b"\\u0017"; // \x17
+const U18: &[u8] = b"\\u0018"; // \x18
+const U19: &[u8] = b"\\u0019"; // \x19
+const U1A: &[u8] = b"\\u001A"; // \x1A
+const U1B: &[u8] = b"\\u001B"; // \x1B
+const U1C: &[u8] = b"\\u001C"; // \x1C
+const U1D: &[u8] = b"\\u001D"; // \x1D
+const U1E: &[u8] = b"\\u001E"; // \x1E
+const U1F: &[u8] = b"\\u001F"; // \x1F
 const __: &[u8] = b"";
 
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    U00, U01, U02, U03, U04, U05, U06, U07, BB, TT, NN, U0B, FF, RR, U0E, U0F, // 0
+    U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U1A, U1B, U1C, U1D, U1E, U1F, // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 4bc0b7b22f9755a089ab91de8f34de273bf15cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 08/15] fix: indent query results nested deeper than 100 levels

---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..bf7f35c 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut spaces = level * indent;
+    while spaces > SPACE_BUF.len() {
+        writer.write_bytes(&SPACE_BUF)?;
+        spaces -= SPACE_BUF.len();
+    }
+    writer.write_bytes(&SPACE_BUF[..spaces])?;
     Ok(())
 }
-- 
2.43.0


From dfe39376614c5661909faee8727856d5242347a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 09/15] fix: compare documents by content, not by the number of
 bytes that equal numbers take

---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..1c3584b 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -252,7 +252,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -543,7 +543,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From f1b075220969db5e19605565db3c137142869a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 10/15] fix: refuse keys longer than a key length can say

---
 src/binary.rs         | 1 +
 src/builder/object.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..40a8503 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -13,4 +13,5 @@ pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 3d336c5..4a78592 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -118,6 +118,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 784289bea9a04c73e0449b286aa0cfbe6d4b312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 11/15] fix: count elements pushed beyond the declared count
 without writing over the document

---
 src/builder/array.rs  | 12 +++++++++---
 src/builder/object.rs | 18 ++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0608189..f3ed7c7 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -15,7 +15,7 @@ pub(crate) struct InnerArrayBuilder<'a, B: AsMut<Vec<u8>>> {
     element_count: u16,
     start_pos: usize,
     value_entry_pos: usize,
-    value_count: u16,
+    value_count: usize,
     bytes_init_len: usize,
     current_depth: usize,
     total_nested_depth: Depth<'a>,
@@ -60,10 +60,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
-        if self.value_count != self.element_count {
+        if self.value_count != self.element_count as usize {
             return Err(BuildError::InconsistentElementCount {
                 expected: self.element_count,
-                actual: self.value_count,
+                actual: self.value_count.min(u16::MAX as usize) as u16,
             });
         }
 
@@ -85,6 +85,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
             return Err(BuildError::InnerUncompletedError);
         }
 
+        if self.value_count >= self.element_count as usize {
+            // There is no room for the value entry, `finish()` reports the wrong element count.
+            self.value_count += 1;
+            return Ok(());
+        }
+
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
         let offset = bytes.len() - self.start_pos;
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 4a78592..6a002e1 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -18,7 +18,7 @@ pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
     element_count: u16,
     start_pos: usize,
     key_offset_pos: usize,
-    value_count: u16,
+    value_count: usize,
     bytes_init_len: usize,
     key_sorted: bool,
     current_depth: usize,
@@ -93,10 +93,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
-        if self.value_count != self.element_count {
+        if self.value_count != self.element_count as usize {
             return Err(BuildError::InconsistentElementCount {
                 expected: self.element_count,
-                actual: self.value_count,
+                actual: self.value_count.min(u16::MAX as usize) as u16,
             });
         }
 
@@ -122,17 +122,23 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             return Err(BuildError::StringTooLong(key.len()));
         }
 
+        if self.value_count >= self.element_count as usize {
+            // There is no room for the key offset, `finish()` reports the wrong element count.
+            self.value_count += 1;
+            return Ok(());
+        }
+
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
 
         if !self.key_sorted {
-            let pos = Self::binary_search(key, bytes, self.start_pos, self.value_count as usize);
+            let pos = Self::binary_search(key, bytes, self.start_pos, self.value_count);
 
             let key_offset = bytes.len() - self.start_pos;
             let offset_pos = self.start_pos + ELEMENT_COUNT_SIZE + pos * KEY_OFFSET_SIZE;
 
-            if pos < self.value_count as usize {
-                let count = (self.value_count as usize - pos) * KEY_OFFSET_SIZE;
+            if pos < self.value_count {
+                let count = (self.value_count - pos) * KEY_OFFSET_SIZE;
                 let src = bytes[offset_pos..offset_pos + count].as_mut_ptr();
                 let dst = unsafe { src.add(KEY_OFFSET_SIZE) };
 
-- 
2.43.0


From 59460d6413b43fd2f1fe857637c861b951375f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 12/15] fix: leave a builder unchanged when a push fails

---
 src/builder/array.rs  | 14 ++++++++++++++
 src/builder/object.rs | 22 +++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index f3ed7c7..6f5b367 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -102,8 +102,21 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         Ok(())
     }
 
+    /// An embedded container must not be counted when it can not be nested any deeper.
+    #[inline]
+    fn check_nested(&self) -> BuildResult<()> {
+        if self.current_depth != self.total_nested_depth.depth() {
+            return Err(BuildError::InnerUncompletedError);
+        }
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+        Ok(())
+    }
+
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        self.check_nested()?;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
@@ -116,6 +129,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        self.check_nested()?;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 6a002e1..6e03ef0 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -203,6 +203,18 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         unsafe { std::str::from_utf8_unchecked(key_bytes) }
     }
 
+    /// An embedded container must not be counted when it can not be nested any deeper.
+    #[inline]
+    fn check_nested(&self) -> BuildResult<()> {
+        if self.current_depth != self.total_nested_depth.depth() {
+            return Err(BuildError::InnerUncompletedError);
+        }
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+        Ok(())
+    }
+
     #[inline]
     fn push_object(
         &mut self,
@@ -210,6 +222,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        self.check_nested()?;
         let size = key.len() + KEY_LENGTH_SIZE;
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
@@ -218,6 +231,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        self.check_nested()?;
         let size = key.len() + KEY_LENGTH_SIZE;
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
@@ -226,6 +240,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, key: &str, value: &str) -> BuildResult<()> {
+        if self.current_depth != self.total_nested_depth.depth() {
+            return Err(BuildError::InnerUncompletedError);
+        }
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
         let size = KEY_LENGTH_SIZE + key.len() + DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>| {
             bytes.push_data_type(DataType::String);
-- 
2.43.0


From e2057c407697888e4666f8b3040ae67a77d760cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 13/15] fix: refuse more elements than an element count can say
 instead of dropping them

---
 src/builder/mod.rs |  8 ++++++++
 src/json.rs        | 18 +++++++++---------
 src/path/mod.rs    |  3 ++-
 src/yason/mod.rs   |  4 +++-
 4 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..b12f3ed 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -44,6 +44,7 @@ pub enum BuildError {
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
+    TooManyElements(usize),
 }
 
 impl Display for BuildError {
@@ -61,6 +62,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::TooManyElements(e) => write!(f, "too many elements, count is {}", e),
         }
     }
 }
@@ -76,6 +78,12 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+/// Checks that a container can have this many elements.
+#[inline]
+pub(crate) fn element_count(len: usize) -> BuildResult<u16> {
+    u16::try_from(len).map_err(|_| BuildError::TooManyElements(len))
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/json.rs b/src/json.rs
index ce41127..6fe13e0 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -1,6 +1,6 @@
 //! Json to Yason
 
-use crate::builder::{ArrBuilder, BuildResult, NumberError, ObjBuilder};
+use crate::builder::{element_count, ArrBuilder, BuildResult, NumberError, ObjBuilder};
 use crate::{
     ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
 };
@@ -21,12 +21,12 @@ impl TryFrom<&serde_json::Value> for YasonBuf {
             Value::Number(val) => Scalar::number(number2decimal(val, &mut buf)?),
             Value::String(val) => Scalar::string(val),
             Value::Array(val) => {
-                let mut array_builder = ArrayBuilder::try_new(val.len() as u16)?;
+                let mut array_builder = ArrayBuilder::try_new(element_count(val.len())?)?;
                 write_array(&mut array_builder, val, &mut buf)?;
                 array_builder.finish()
             }
             Value::Object(val) => {
-                let mut object_builder = ObjectBuilder::try_new(val.len() as u16, false)?;
+                let mut object_builder = ObjectBuilder::try_new(element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, &mut buf)?;
                 object_builder.finish()
             }
@@ -56,12 +56,12 @@ impl Yason {
             Value::Number(val) => Scalar::number_with_vec(number2decimal(val, &mut buf)?, bytes),
             Value::String(val) => Scalar::string_with_vec(val, bytes),
             Value::Array(array) => {
-                let mut builder = ArrayRefBuilder::try_new(bytes, array.len() as u16)?;
+                let mut builder = ArrayRefBuilder::try_new(bytes, element_count(array.len())?)?;
                 write_array(&mut builder, array, &mut buf)?;
                 builder.finish()
             }
             Value::Object(object) => {
-                let mut builder = ObjectRefBuilder::try_new(bytes, object.len() as u16, false)?;
+                let mut builder = ObjectRefBuilder::try_new(bytes, element_count(object.len())?, false)?;
                 write_object(&mut builder, object, &mut buf)?;
                 builder.finish()
             }
@@ -86,12 +86,12 @@ fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf:
                 builder.push_string(val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(val.len() as u16)?;
+                let mut array_builder = builder.push_array(element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
@@ -121,12 +121,12 @@ fn write_object<T: ObjBuilder>(
                 builder.push_string(key, val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(key, val.len() as u16)?;
+                let mut array_builder = builder.push_array(key, element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(key, val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(key, element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..8693cc8 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -4,6 +4,7 @@ use crate::path::parse::{FuncStep, PathParser, Step};
 use std::fmt;
 use std::str::FromStr;
 
+use crate::builder::element_count;
 use crate::yason::YasonResult;
 use crate::{ArrayRefBuilder, DataType, Number, Value, Yason, YasonError};
 
@@ -196,7 +197,7 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, element_count(values.len())?)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 1c3584b..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From 2c8042fea398ee39765649bb7482abc78687d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 14/15] fix: refuse a container larger than its size field can
 say

---
 src/builder/array.rs  | 3 ++-
 src/builder/mod.rs    | 2 ++
 src/builder/object.rs | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 6f5b367..7e47da7 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -69,7 +69,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - ARRAY_SIZE);
+        let size = i32::try_from(total_size).map_err(|_| BuildError::TotalSizeTooLarge(total_size))?;
+        bytes.write_total_size(size, self.start_pos - ARRAY_SIZE);
 
         self.total_nested_depth.decrease();
 
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index b12f3ed..77b8635 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -45,6 +45,7 @@ pub enum BuildError {
     NumberError(NumberError),
     NestedTooDeeply,
     TooManyElements(usize),
+    TotalSizeTooLarge(usize),
 }
 
 impl Display for BuildError {
@@ -63,6 +64,7 @@ impl Display for BuildError {
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
             BuildError::TooManyElements(e) => write!(f, "too many elements, count is {}", e),
+            BuildError::TotalSizeTooLarge(e) => write!(f, "total size too large, size is {}", e),
         }
     }
 }
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 6e03ef0..ef2f236 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -102,7 +102,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
         let bytes = self.bytes.as_mut();
         let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - OBJECT_SIZE);
+        let size = i32::try_from(total_size).map_err(|_| BuildError::TotalSizeTooLarge(total_size))?;
+        bytes.write_total_size(size, self.start_pos - OBJECT_SIZE);
 
         self.total_nested_depth.decrease();
 
-- 
2.43.0


From da185d7c551f735a08b908429eeae61f15d8eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 15/15] fix: do not count an embedded container when there is
 no memory for it

---
 src/builder/array.rs  | 13 ++++++++++---
 src/builder/object.rs | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 7e47da7..7025fbb 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -3,13 +3,19 @@
 use crate::binary::{
     ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
 };
-use crate::builder::object::InnerObjectBuilder;
+use crate::builder::object::{object_head_size, InnerObjectBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number, ObjectRefBuilder};
 use decimal_rs::MAX_BINARY_SIZE;
 
+/// The size of everything before the first value, which an embedding builder must reserve before it counts the array.
+#[inline]
+pub(crate) const fn array_head_size(element_count: u16) -> usize {
+    DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * (element_count as usize)
+}
+
 pub(crate) struct InnerArrayBuilder<'a, B: AsMut<Vec<u8>>> {
     bytes: B,
     element_count: u16,
@@ -31,8 +37,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
 
-        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
-        bs.try_reserve(size)?;
+        bs.try_reserve(array_head_size(element_count))?;
 
         bs.push_data_type(DataType::Array); // type
         bs.skip_size(); // size
@@ -118,6 +123,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
         self.check_nested()?;
+        self.bytes.as_mut().try_reserve(object_head_size(element_count))?;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
@@ -131,6 +137,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
         self.check_nested()?;
+        self.bytes.as_mut().try_reserve(array_head_size(element_count))?;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
diff --git a/src/builder/object.rs b/src/builder/object.rs
index ef2f236..1e0b516 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -4,7 +4,7 @@ use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
     MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
-use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
+use crate::builder::array::{array_head_size, ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
 use crate::util::cmp_key;
 use crate::vec::VecExt;
@@ -13,6 +13,12 @@ use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
 use std::ptr;
 
+/// The size of everything before the first key, which an embedding builder must reserve before it counts the object.
+#[inline]
+pub(crate) const fn object_head_size(element_count: u16) -> usize {
+    DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * (element_count as usize)
+}
+
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
     bytes: B,
     element_count: u16,
@@ -40,8 +46,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         let bs = bytes.as_mut();
         let bytes_init_len = bs.len();
 
-        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * (element_count as usize);
-        bs.try_reserve(size)?;
+        bs.try_reserve(object_head_size(element_count))?;
 
         bs.push_data_type(DataType::Object); // type
         bs.skip_size(); // size
@@ -224,7 +229,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
         self.check_nested()?;
-        let size = key.len() + KEY_LENGTH_SIZE;
+        let size = key.len() + KEY_LENGTH_SIZE + object_head_size(element_count);
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
@@ -233,7 +238,7 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
         self.check_nested()?;
-        let size = key.len() + KEY_LENGTH_SIZE;
+        let size = key.len() + KEY_LENGTH_SIZE + array_head_size(element_count);
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
-- 
2.43.0

