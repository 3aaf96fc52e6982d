From 0a2af182aa5af4a0471ac1dbdb7d8c3c3cbddb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 01/27] fix: size and write negative and large signed integers
 correctly

The range test of the signed writer was always true, so every i64/i32/isize
was truncated to 16 bits (or recursed forever), and the byte count was taken
from the trailing bits.
---
 src/encoder/encodable.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..3108291 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,20 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // The significant bits plus a sign bit, rounded up to whole bytes, plus the header
+        let redundant_bits = if *self >= 0 {
+            self.leading_zeros() - 1
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            self.leading_ones() - 1
+        };
+        8 - redundant_bits as usize / 8 + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 11323b3262deea6366d12614787511d461b9b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 02/27] fix: take the size of an unsigned integer from its
 leading zeros

Counting trailing zeros dropped significant high bytes of values with low
zero bytes, and could panic on subtraction overflow.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 3108291..455d6c2 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -90,8 +90,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let leading_zero_bytes = self.leading_zeros() / 8;
+            8 - leading_zero_bytes as usize + 1
         }
     }
 
-- 
2.43.0


From 5286fd7712735ba32de31e84d0271cccaea9452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 03/27] fix: announce the real size of 16-bit integers beyond
 12 bits

They are written as a long integer, so a size of 2 made the encoder panic.
---
 src/encoder/encodable.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 455d6c2..5518ad6 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -245,6 +245,10 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
+        // Short can only be 12 bits
+        if *self > 2047 {
+            return u64::from(*self).fleece_size();
+        }
         2
     }
 
@@ -272,6 +276,10 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
+        // Short can only be 12 bits
+        if *self > 2047 || *self < -2048 {
+            return i64::from(*self).fleece_size();
+        }
         2
     }
 
-- 
2.43.0


From 3d2f541bbcb66c9683937c6afec3bc713572471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 04/27] fix: sign-extend signed integers shorter than 8 bytes
 when decoding

---
 src/value/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..1cc8a42 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -274,6 +274,10 @@ impl Value {
                         count,
                     );
                 }
+                // A signed integer shorter than 8 bytes needs its sign extended
+                if self.value_type() == ValueType::Int && buf[count - 1] & 0x80 != 0 {
+                    buf[count..].fill(0xFF);
+                }
                 i64::from_le_bytes(buf)
             }
             ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i64,
-- 
2.43.0


From 6ac5b564a14d353c2f90ed94145e8cf48c0a0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 05/27] fix: keep the tag of short strings and data stored
 inline in narrow collections

---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 5518ad6..3ecdd7b 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -618,7 +618,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From e5a2b35ac8062efe3f5b717b0034781c84eb7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 06/27] fix: Array::get past the last element gives None

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From 65fa1aea49d35e39d52485028ebb5037af8d4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 07/27] fix: measure pointers from where they are written when
 deciding a collection's width

---
 src/encoder/mod.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..859712c 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -422,33 +422,45 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    /// The position at which the first element of a collection is written, if the given header
+    /// is written next.
+    fn _first_elem_pos<T: Encodable>(&self, header: &T) -> usize {
+        let pos = self.out.len() + header.fleece_size();
+        pos + pos % 2
+    }
+
+    // A pointer is relative to its own position, so it is measured from where it will be written
+    // in a narrow collection.
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut pos = self._first_elem_pos(array);
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(pos) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            pos += 2;
         }
         false
     }
 
-    // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
+    // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide.
+    // The elements must already be in the order in which they will be written.
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut pos = self._first_elem_pos(dict);
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if pos - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            pos += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(pos) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-            len += 2;
+            pos += 2;
         }
         false
     }
-- 
2.43.0


From 24f2937d5a7649b71b402a0ea79b65a7220fd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 08/27] fix: treat strings and data whose length doesn't fit as
 invalid instead of panicking

---
 src/value/mod.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 1cc8a42..34b8d70 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -421,12 +421,9 @@ impl Value {
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
-                }
+                // A value whose length is unreadable doesn't fit anywhere
+                self._data_header()
+                    .map_or(usize::MAX, |(start, len)| start.saturating_add(len).max(2))
             }
             // TODO: This is not correct for MutableArray / MutableDict
             ValueType::Array | ValueType::Dict => 2,
@@ -511,24 +508,29 @@ impl Value {
         u16::from_be_bytes(buf)
     }
 
-    fn _get_data(&self) -> &[u8] {
-        if self.bytes.len() < 2 {
-            return &[];
-        }
+    /// The position of the contents of a string or data value within it, and their length. Returns
+    /// [`None`] if the length is unreadable.
+    fn _data_header(&self) -> Option<(usize, usize)> {
         let inline_size = self.bytes[0] & 0x0F;
         if inline_size == 0x0F {
             // varint
             let (bytes_read, size) = varint::read(&self.bytes[1..]);
             if bytes_read == 0 {
-                return &[];
+                return None;
             }
-            #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
+            Some((1 + bytes_read, usize::try_from(size).ok()?))
         } else {
-            let end = 1 + inline_size as usize;
-            &self.bytes[1..end]
+            Some((1, inline_size as usize))
+        }
+    }
+
+    fn _get_data(&self) -> &[u8] {
+        if self.bytes.len() < 2 {
+            return &[];
         }
+        self._data_header()
+            .and_then(|(start, len)| self.bytes.get(start..start.checked_add(len)?))
+            .unwrap_or(&[])
     }
 
     #[must_use]
-- 
2.43.0


From 8cf16473d01095497ed5e0a77aac120a80393094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 09/27] fix: reject external pointers instead of panicking, and
 check offsets before forming a pointer

---
 src/value/pointer.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..f5828a9 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -32,23 +32,20 @@ impl Pointer {
             return Err(DecodeError::PointerOffsetZero);
         }
 
-        // First get the pointer given by offset, so we can validate before de-referencing
-        #[allow(clippy::cast_possible_wrap)]
-        let target_ptr = unsafe { self.offset(-(offset as isize)) };
-
-        // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // The target should fit within the source data. Validate the offset before forming a pointer
+        // from it. Pointers which are external to the source data are not supported.
+        let position = self.value.bytes.as_ptr() as usize;
+        if self.value.bytes[0] & 0x40 != 0 || offset as usize > position - data_start as usize {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
-                target: target_ptr as usize,
+                target: position.wrapping_sub(offset as usize),
                 offset,
             });
         }
 
+        #[allow(clippy::cast_possible_wrap)]
+        let target_ptr = unsafe { self.offset(-(offset as isize)) };
+
         let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
 
         if target.value_type() == ValueType::Pointer {
-- 
2.43.0


From a62987c828d3ed6bdbfb2a0546680e9e2f0f56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 10/27] fix: don't overflow when reading a varint of more than
 ten bytes

---
 src/value/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..75c437a 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,7 +12,7 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
@@ -20,8 +20,8 @@ pub fn read(data: &[u8]) -> (usize, u64) {
             shift += 7;
         } else {
             res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // The last byte of a varint of the maximum length only has space for one more bit
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
             return (i + 2, res);
-- 
2.43.0


From 72a52329037a48433a5683407f0388dcec0cf955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 11/27] fix: don't overflow on an array header announcing a
 huge number of elements

---
 src/value/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..68ac60c 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,8 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
-- 
2.43.0


From d4e6cc5c4d85cc5abab70c165d0d6523d4353dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 12/27] fix: reject values that overlap the pointer leading to
 them, whose accessors would panic

---
 src/value/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 34b8d70..b454a65 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -391,15 +391,21 @@ impl Value {
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                if IS_ARR_ELEM {
+                    return Ok(());
+                }
+                // The value must end before `data_end`, and it can't overlap what points to it
+                let required_size = self.required_size();
+                let available_size = self
+                    .len()
+                    .min((data_end as usize).saturating_sub(self.bytes.as_ptr() as usize));
+                if required_size <= available_size {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
-                        required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        required_size,
+                        available_size,
                     })
                 }
             }
-- 
2.43.0


From 818365306019280f016362cefcc9eb50dd0491a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 13/27] fix: don't panic on looking up a key in a dict which
 has keys that aren't strings

---
 src/value/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index b454a65..2f2cf7c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -439,14 +439,8 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
-            // Inline strings
-            (dict::Key::String(key), ValueType::String) => (*key).cmp(value2.to_str()),
             // Pointers to strings
             (dict::Key::String(key), ValueType::Pointer) => {
                 let val2 = unsafe {
@@ -454,15 +448,16 @@ impl Value {
                         .deref_unchecked(is_wide)
                         .to_str()
                 };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
                 (*key).cmp(val2)
             }
             // SharedKeys
             (dict::Key::Shared(key), ValueType::Short) => key.cmp(&value2.to_unsigned_short()),
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
-            (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            (dict::Key::String(_), ValueType::Short) => Ordering::Greater,
+            // Inline strings. The encoder never writes anything else as a key, but valid Fleece might
+            // contain it, it's treated like an empty string.
+            (dict::Key::String(key), _) => (*key).cmp(value2.to_str()),
         }
     }
 
-- 
2.43.0


From d4374c876fe196b187ae323efd11a8bbbbcb6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 14/27] fix: take fractions for true and an unsigned zero for
 false in to_bool

---
 src/value/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 2f2cf7c..b1b505c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -202,16 +202,15 @@ impl Value {
 
 // Into Conversions
 impl Value {
-    // False is false, Numbers not equal to 0 are false, everything else is true
+    // False is false, Numbers equal to 0 are false, everything else is true
     #[must_use]
     pub fn to_bool(&self) -> bool {
         match self.value_type() {
             ValueType::False => false,
-            ValueType::Short
-            | ValueType::Int
-            | ValueType::Float
-            | ValueType::Double32
-            | ValueType::Double64 => self.to_int() != 0,
+            ValueType::Short | ValueType::Int | ValueType::UnsignedInt => self.to_int() != 0,
+            ValueType::Float | ValueType::Double32 | ValueType::Double64 => {
+                self.to_double() != 0.0
+            }
             _ => true,
         }
     }
-- 
2.43.0


From 35ec4f0cd93eefe0a2446fae03954fe93c33736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 15/27] fix: convert unsigned integers above i64::MAX to a
 positive double

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index b1b505c..8fdba05 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -304,6 +304,7 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
-- 
2.43.0


From e4547dc9e7b0ea34053d726ffcaecd91c3894b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 16/27] fix: don't panic on writing a short string wide into a
 buffer of two or three bytes

---
 src/encoder/encodable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 3ecdd7b..43612e2 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -502,7 +502,8 @@ fn write_fleece_string<const IS_STR: bool>(
 impl super::private::Sealed for [u8] {}
 impl Encodable for [u8] {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        // An empty or one-byte slice is padded if it's wide
+        if self.fleece_size() > buf.len() || (is_wide && self.len() < 2 && buf.len() < 4) {
             None
         } else {
             Some(write_fleece_string::<false>(self, buf, is_wide))
@@ -529,7 +530,8 @@ impl Encodable for [u8] {
 impl super::private::Sealed for str {}
 impl Encodable for str {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        // An empty or one-byte string is padded if it's wide
+        if self.fleece_size() > buf.len() || (is_wide && self.len() < 2 && buf.len() < 4) {
             None
         } else {
             Some(write_fleece_string::<true>(self.as_bytes(), buf, is_wide))
-- 
2.43.0


From 58ddc9f65983d87ecb8a221acc6e05bc3ff78ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 17/27] fix: end_array doesn't drop an open dict when it fails

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 859712c..261837f 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,9 +196,13 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        // Can only end an array if the top collection is an array
+        let Some(Collection::Array(_)) = self.collection_stack.top() else {
             return Err(EncodeError::ArrayNotOpen);
         };
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
+        };
         let is_wide = self._array_should_be_wide(&array);
 
         // Write the Array header via `Encodable` trait
-- 
2.43.0


From 9f876cf5a54d8c23a2eb4ffec6b4c1630d6aa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 18/27] fix: failed write_key and write_value don't leave bytes
 or shared keys behind

---
 src/encoder/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 261837f..fbd94ae 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -90,6 +90,12 @@ impl Encoder {
             // Keys which are small enough are inlined.
             self._write_key_inline(val)
         } else {
+            // Check this before anything is written to the output or inserted into SharedKeys
+            match self.collection_stack.top() {
+                Some(Collection::Dict(dict)) if dict.next_key.is_none() => {}
+                Some(Collection::Dict(_)) => return Err(EncodeError::DictWaitingForValue),
+                _ => return Err(EncodeError::DictNotOpen),
+            }
             // Other keys are written either as a pointer or using SharedKeys, if available.
             self._write_key(key)
         }
@@ -105,8 +111,13 @@ impl Encoder {
     where
         T: Encodable,
     {
-        if self.collection_stack.empty() {
-            return Err(EncodeError::CollectionNotOpen);
+        // Check this before anything is written to the output
+        match self.collection_stack.top() {
+            None => return Err(EncodeError::CollectionNotOpen),
+            Some(Collection::Dict(dict)) if dict.next_key.is_none() => {
+                return Err(EncodeError::DictWaitingForKey);
+            }
+            _ => {}
         }
 
         let value = value.borrow();
-- 
2.43.0


From 962a9e6d94a79345f4399eae41408bdcf521c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 19/27] fix: keep values aligned when encoding behind an odd
 number of bytes

---
 src/encoder/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index fbd94ae..0876d2c 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -70,8 +70,13 @@ impl Encoder {
         Value::clone_from_bytes(&vec).unwrap()
     }
 
+    /// Construct an encoder which writes behind the existing content of `out`. If that has an odd
+    /// length, a padding byte is written behind it, because Fleece values must be evenly aligned.
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From fa71d61b49427012e24e0125cc8d1b67bdb8410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 20/27] fix: keep all 16 bytes of a shared key, don't look up
 keys that can't be shared, and find known keys in a full table

---
 src/shared_keys.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..68da43d 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,8 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// A `zstr<N>` holds up to `N - 1` bytes, and a zero.
+pub struct SharedKeys(folklore::HashMap<zstr<17>, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,21 +31,24 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        if !Self::is_eligible(string_key) {
+            // Such a key is never added, and might not fit into a `zstr`.
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
-        let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
-        if !self.0.insert(key, index) {
+        if !self.0.insert(zstr::make(key), index) {
             return None;
         }
         Some(index)
@@ -57,9 +61,12 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::is_eligible(key)
+    }
+
+    #[inline]
+    fn is_eligible(key: &str) -> bool {
+        key.len() <= Self::MAX_KEY_LEN as usize && Self::can_encode(key)
     }
 
     #[inline]
@@ -133,7 +140,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, zstr<17>, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From c2aa2b6f3df2338f822beae2bdceb0f5eda1f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 21/27] fix: shared-key state with values other than strings is
 no state, rather than a panic

---
 src/shared_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 68da43d..f413ac5 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -87,7 +87,9 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
             shared_keys.encode_and_insert(borrowed_key)?;
         }
-- 
2.43.0


From d67d74c17b75ddc508ea9e0206e0da074a36315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 22/27] fix: find keys that are in the shared keys but were
 written as strings

---
 src/value/dict.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..30d82f7 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self.find(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,18 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self.find(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    /// Find the value for `key`. Being in [`SharedKeys`] doesn't mean the key is shared in this
+    /// Dict: the encoder inlines short keys, and this Dict may be older than the shared key.
+    fn find(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        let encoded = self.encode_key(key, shared_keys);
+        let found = self._get(&encoded);
+        if found.is_none() && matches!(encoded, Key::Shared(_)) {
+            return self._get(&Key::String(key));
+        }
+        found
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From 0616108557b15628d74673c16f1eff9cdbf3285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 23/27] fix: size hint of a mutable array's iterator counts
 what is left

---
 src/mutable/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..93139be 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,7 +196,7 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
+        let len = self.arr.len().saturating_sub(self.index);
         (len, Some(len))
     }
 }
-- 
2.43.0


From 48f36b88be3b6b3d34ea3bd2a393e02d91343106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 24/27] fix: serialize unit structs as the unit they
 deserialize from

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 039c14c..b90a9ea 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -177,7 +177,7 @@ impl<'ser> serde::Serializer for &'ser mut Serializer {
     }
 
     fn serialize_unit_struct(self, _name: &'static str) -> Result<Self::Ok> {
-        self.serialize_none()
+        self.serialize_unit()
     }
 
     // Array [ VARIANT_NAME ]
-- 
2.43.0


From 97020e1657b18d6805bc192972a7e9e6cb4d34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 25/27] fix: deserialize newtype structs from their inner value

---
 src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..bd53040 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,6 +205,18 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         self.deserialize_map(visitor)
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        // Newtype structs are serialized as just their inner value
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -229,7 +241,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From eda12d4c8ce8eb1044892e1d217b0030ab08871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 26/27] fix: don't panic and poison the scope map on a scope
 with empty data

---
 src/scope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..6812e4e 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,7 +65,8 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        // Empty data was never inserted
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             scope_map.remove(range);
         }
     }
@@ -91,7 +92,10 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // There are no addresses inside empty data, and `RangeMap` panics on empty ranges
+        if start < end {
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From fb59fa5bd2965a55b20216292ead7b3fd5b47b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:36 +0000
Subject: [PATCH 27/27] fix: let the fleece! macro build arrays within arrays

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0

