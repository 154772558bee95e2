From b389dcd4e6b8572e36a6265ef284ade8074bccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/62] fix: raw dict values order for signed keys

Whether the sign bit fork must be inverted was decided by the data left
after the label, which is always empty in a plain fork and never empty in
an augmented one.
---
 src/dict/raw.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index d9c64c9..2590513 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1325,6 +1325,7 @@ impl<'a> RawValues<'a> {
             segments.push(ValuesSegment {
                 data,
                 remaining_bit_len: bit_len,
+                empty_label: false,
             });
         }
         Self {
@@ -1405,13 +1406,14 @@ impl<'a> Iterator for RawValues<'a> {
                         let remaining_bit_len = segment.remaining_bit_len;
                         let next_bit = (refs_offset != 0)
                             ^ reverse
-                            ^ (signed && is_root && segment.data.is_data_empty());
+                            ^ (signed && is_root && segment.empty_label);
                         let data = ok!(segment.data.cell().get_reference_as_slice(next_bit as u8));
                         segment.data.skip_first(0, 1).ok();
 
                         segments.push(ValuesSegment {
                             data,
                             remaining_bit_len,
+                            empty_label: false,
                         });
                         // SAFETY: we have just added a new element
                         break unsafe { segments.last_mut().unwrap_unchecked() };
@@ -1438,6 +1440,7 @@ impl<'a> Iterator for RawValues<'a> {
                             return Err(Error::CellUnderflow);
                         }
                         segment.remaining_bit_len = remaining - 1;
+                        segment.empty_label = prefix.is_data_empty();
                         // Handle next segment
                         continue;
                     }
@@ -1457,6 +1460,9 @@ impl<'a> Iterator for RawValues<'a> {
 struct ValuesSegment<'a> {
     data: CellSlice<'a>,
     remaining_bit_len: u16,
+    /// Whether the label of the loaded edge was empty (only the sign bit of
+    /// the fork at the very first key bit must be inverted for signed keys).
+    empty_label: bool,
 }
 
 #[cfg(test)]
-- 
2.43.0


From e02270bb2b28ca253966c212cd540e66abd16778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 02/62] fix: dict_merge rejected valid dictionaries and hid
 iterator errors

The length of a root cell says nothing about the length of keys. A failed
merge must not leave a partially merged dictionary behind either.
---
 src/dict/ops/split_merge.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/dict/ops/split_merge.rs b/src/dict/ops/split_merge.rs
index 923ad03..96d5d9d 100644
--- a/src/dict/ops/split_merge.rs
+++ b/src/dict/ops/split_merge.rs
@@ -151,25 +151,20 @@ pub fn dict_merge(
             *left = Some(right.clone());
             return Ok(());
         }
-        (Some(left_cell), Some(right_cell)) => {
-            let bit_len = left_cell.bit_len();
-            if bit_len != right_cell.bit_len() && bit_len != key_bit_length {
-                return Err(Error::InvalidCell); // KEY LENGTH ERROR?
-            }
-
-            let mut right_dict_iter = RawIter::new(right, key_bit_length);
-            while let Some(Ok((key, value))) = right_dict_iter.next() {
-                let current_bit_len = key.size_bits();
-
-                dict_insert(
-                    left,
+        (Some(_), Some(_)) => {
+            let mut merged = left.clone();
+            for entry in RawIter::new(right, key_bit_length) {
+                let (key, value) = ok!(entry);
+                ok!(dict_insert(
+                    &mut merged,
                     &mut key.as_data_slice(),
-                    current_bit_len,
+                    key_bit_length,
                     &value,
                     SetMode::Set,
                     context,
-                )?;
+                ));
             }
+            *left = merged;
         }
     }
     Ok(())
-- 
2.43.0


From ca7275263a4f74c82123264c46e5a2a26bafe291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/62] fix: raw dict owned values returned a wrong cell when
 reversed or signed

---
 src/dict/raw.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index 2590513..6a9c456 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1265,8 +1265,15 @@ impl Iterator for RawOwnedValues<'_> {
                 let parent = match self.inner.segments.last() {
                     Some(segment) => {
                         let refs_offset = segment.data.offset_refs();
-                        debug_assert!(refs_offset > 0);
-                        match segment.data.cell().reference_cloned(refs_offset - 1) {
+                        debug_assert!(refs_offset == 1 || refs_offset == 2);
+
+                        let next_bit = (refs_offset != 1)
+                            ^ self.inner.reversed
+                            ^ (self.inner.signed
+                                && self.inner.segments.len() == 1
+                                && segment.empty_label);
+
+                        match segment.data.cell().reference_cloned(next_bit as u8) {
                             Some(cell) => cell,
                             None => return Some(Err(self.inner.finish(Error::CellUnderflow))),
                         }
-- 
2.43.0


From a369a1051a4f0bbe9deab4921d78c05ca874fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 04/62] fix: builder capacity checks overflow for large sizes

Sizes above 64512 bits wrapped the 16-bit sum, so that a store which cannot
fit either panicked or was accepted.
---
 src/cell/builder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index ca5e90d..33b32ec 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -412,7 +412,7 @@ impl CellBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits` and `refs`.
     #[inline]
     pub const fn has_capacity(&self, bits: u16, refs: u8) -> bool {
-        self.inner.bit_len + bits <= MAX_BIT_LEN
+        self.inner.has_capacity_bits(bits)
             && self.references.len() + refs as usize <= MAX_REF_COUNT
     }
 
@@ -852,7 +852,7 @@ impl CellDataBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits`.
     #[inline]
     pub const fn has_capacity_bits(&self, bits: u16) -> bool {
-        self.bit_len + bits <= MAX_BIT_LEN
+        bits <= self.spare_capacity_bits()
     }
 
     /// Clears all data bits and sets the size in bits to 0.
@@ -894,7 +894,7 @@ impl CellDataBuilder {
     /// Tries to store the specified number of zero bits in the cell,
     /// returning `false` if there is not enough remaining capacity.
     pub fn store_zeros(&mut self, bits: u16) -> Result<(), Error> {
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             self.bit_len += bits;
             Ok(())
         } else {
@@ -1052,7 +1052,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             bits = if let Some(offset) = bits.checked_sub(8) {
                 self.bit_len += offset;
                 8
@@ -1095,7 +1095,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             // Store zeros if bits is greater than 64
             bits = if let Some(offset) = bits.checked_sub(64) {
                 self.bit_len += offset;
@@ -1382,7 +1382,7 @@ impl CellDataBuilder {
             store_raw(data, bit_len, value, bits)
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             let mut data = [0; 128];
             let mut bit_len = 0;
             ok!(store_raw_impl(&mut data, &mut bit_len, value, bits));
@@ -1408,8 +1408,8 @@ fn store_raw(
     value: &[u8],
     mut bits: u16,
 ) -> Result<(), Error> {
-    if *bit_len + bits <= MAX_BIT_LEN {
-        let max_bit_len = value.len().saturating_mul(8) as u16;
+    if bits <= MAX_BIT_LEN - *bit_len {
+        let max_bit_len = std::cmp::min(value.len().saturating_mul(8), u16::MAX as usize) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
             max_bit_len
-- 
2.43.0


From fe0d5ebcdccea15a4773438e6c968b8d3e579cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 05/62] fix: slice bounds checks overflow, get_raw ignored its
 offset

Large offsets and sizes wrapped the 16-bit sum, and get_raw compared only the
size with the window, reading bits behind its end.
---
 src/cell/slice.rs | 60 +++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2749882..30fc816 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -367,14 +367,18 @@ impl CellSliceRange {
 
     /// Returns true if the slice contains at least `bits` and `refs`.
     pub const fn has_remaining(&self, bits: u16, refs: u8) -> bool {
-        self.bits_start + bits <= self.bits_end && self.refs_start + refs <= self.refs_end
+        bits <= self.size_bits() && refs <= self.size_refs()
+    }
+
+    /// Returns true if there are at least `bits` after the `offset`.
+    #[inline]
+    const fn has_bits_at(&self, offset: u16, bits: u16) -> bool {
+        offset as u32 + bits as u32 <= self.size_bits() as u32
     }
 
     /// Tries to advance the start of data and refs windows.
     pub fn skip_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -385,9 +389,7 @@ impl CellSliceRange {
 
     /// Leaves only the first `bits` and `refs` in the slice.
     pub fn only_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -398,9 +400,7 @@ impl CellSliceRange {
 
     /// Removes the last `bits` and `refs` from the slice.
     pub fn skip_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -411,9 +411,7 @@ impl CellSliceRange {
 
     /// Leaves only the last `bits` and `refs` in the slice.
     pub fn only_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -426,9 +424,7 @@ impl CellSliceRange {
     /// of data and refs windows.
     #[must_use = "use `skip_first` if you don't need the result"]
     pub fn split_prefix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -443,9 +439,7 @@ impl CellSliceRange {
     /// Returns the last `bits` and `refs` of the slice and shrinks the data and refs windows.
     #[must_use = "use `skip_last` if you don't need the result"]
     pub fn split_suffix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -462,9 +456,9 @@ impl CellSliceRange {
     pub fn get_prefix(&self, bits: u16, refs: u8) -> Self {
         Self {
             bits_start: self.bits_start,
-            bits_end: std::cmp::min(self.bits_start + bits, self.bits_end),
+            bits_end: std::cmp::min(self.bits_start.saturating_add(bits), self.bits_end),
             refs_start: self.refs_start,
-            refs_end: std::cmp::min(self.refs_start + refs, self.refs_end),
+            refs_end: std::cmp::min(self.refs_start.saturating_add(refs), self.refs_end),
         }
     }
 
@@ -1161,7 +1155,7 @@ impl<'a> CellSlice<'a> {
 
     /// Tries to read the bit at the specified offset (relative to the current bits window).
     pub fn get_bit(&self, offset: u16) -> Result<bool, Error> {
-        if self.range.bits_start + offset < self.range.bits_end {
+        if offset < self.range.size_bits() {
             let index = self.range.bits_start + offset;
             if let Some(byte) = self.cell.data().get((index / 8) as usize) {
                 return Ok((byte >> (7 - index % 8)) & 1 != 0);
@@ -1196,7 +1190,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u16` starting from the `offset`.
     pub fn get_u16(&self, offset: u16) -> Result<u16, Error> {
-        if self.range.bits_start + offset + 16 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 16) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1246,7 +1240,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u32` starting from the `offset`.
     pub fn get_u32(&self, offset: u16) -> Result<u32, Error> {
-        if self.range.bits_start + offset + 32 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 32) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1296,7 +1290,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u64` starting from the `offset`.
     pub fn get_u64(&self, offset: u16) -> Result<u64, Error> {
-        if self.range.bits_start + offset + 64 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 64) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1343,7 +1337,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u128` starting from the `offset`.
     pub fn get_u128(&self, offset: u16) -> Result<u128, Error> {
-        if self.range.bits_start + offset + 128 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 128) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1386,7 +1380,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads 32 bytes starting from the `offset`.
     pub fn get_u256(&self, offset: u16) -> Result<HashBytes, Error> {
-        if self.range.bits_start + offset + 256 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 256) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1452,7 +1446,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 8 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 8 && self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
 
             let r = index % 8;
@@ -1506,7 +1500,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 64 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 64 && self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1645,7 +1639,7 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + bits <= self.range.bits_end {
+        if self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1742,7 +1736,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns a reference to the Nth child cell (relative to this slice's refs window).
     pub fn get_reference(&self, index: u8) -> Result<&'a DynCell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1752,7 +1746,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns the Nth child cell (relative to this slice's refs window).
     pub fn get_reference_cloned(&self, index: u8) -> Result<Cell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference_cloned(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1763,7 +1757,7 @@ impl<'a> CellSlice<'a> {
     /// Tries to load the specified child cell as slice.
     /// Returns an error if the loaded cell is absent or is pruned.
     pub fn get_reference_as_slice(&self, index: u8) -> Result<CellSlice<'a>, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             let Some(cell) = self.cell.reference(self.range.refs_start + index) else {
                 return Err(Error::CellUnderflow);
             };
-- 
2.43.0


From 6f15fec0415e03ee6212affa34f59a2d43ba09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 06/62] fix: variable length integers had partial effects and
 wrapped sizes

A value that does not fit left its length prefix in the builder, a truncated
body left the slice moved, long prefixes and numbers above 65535 bits wrapped.
---
 src/cell/builder.rs | 27 ++++++++++++++++-----------
 src/cell/slice.rs   | 24 ++++++++++++++++++++----
 src/util.rs         | 10 ++++++++--
 3 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 33b32ec..662c832 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1273,13 +1273,7 @@ impl CellDataBuilder {
     ) -> Result<(), Error> {
         use crate::util::BigIntExt;
 
-        let bits = x.bitsize(signed);
-        let bytes = bits.div_ceil(8);
-        if bytes >= (1 << len_bits) {
-            return Err(Error::IntOverflow);
-        }
-
-        ok!(self.store_small_uint(bytes as u8, len_bits));
+        let bytes = ok!(self.store_var_len(x.bitsize(signed), len_bits));
         self.store_bigint_truncate(x, bytes * 8, signed)
     }
 
@@ -1290,14 +1284,25 @@ impl CellDataBuilder {
         x: &num_bigint::BigUint,
         len_bits: u16,
     ) -> Result<(), Error> {
-        let bits = x.bits() as u16;
+        use crate::util::BigIntExt;
+
+        let bytes = ok!(self.store_var_len(x.bitsize(false), len_bits));
+        self.store_biguint_truncate(x, bytes * 8)
+    }
+
+    /// Stores the length prefix of a variable length integer, if the value fits as well.
+    #[cfg(feature = "bigint")]
+    fn store_var_len(&mut self, bits: u16, len_bits: u16) -> Result<u16, Error> {
         let bytes = bits.div_ceil(8);
-        if bytes >= (1 << len_bits) {
+        if len_bits < 16 && bytes >> len_bits != 0 {
             return Err(Error::IntOverflow);
         }
+        if !self.has_capacity_bits(bytes.saturating_mul(8).saturating_add(len_bits)) {
+            return Err(Error::CellOverflow);
+        }
 
-        ok!(self.store_small_uint(bytes as u8, len_bits));
-        self.store_biguint_truncate(x, bytes * 8)
+        ok!(self.store_uint(bytes as u64, len_bits));
+        Ok(bytes)
     }
 
     /// Tries to store bytes in the cell (but only the specified number of bits),
diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 30fc816..0d921a8 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1617,15 +1617,31 @@ impl<'a> CellSlice<'a> {
         len_bits: u16,
         signed: bool,
     ) -> Result<num_bigint::BigInt, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_bigint(len * 8, signed)
+        let mut slice = *self;
+        let bits = ok!(slice.load_var_len(len_bits));
+        let res = ok!(slice.load_bigint(bits, signed));
+        *self = slice;
+        Ok(res)
     }
 
     /// Loads variable length unsigned int from the slice.
     #[cfg(feature = "bigint")]
     pub fn load_var_biguint(&mut self, len_bits: u16) -> Result<num_bigint::BigUint, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_biguint(len * 8)
+        let mut slice = *self;
+        let bits = ok!(slice.load_var_len(len_bits));
+        let res = ok!(slice.load_biguint(bits));
+        *self = slice;
+        Ok(res)
+    }
+
+    /// Loads the length prefix of a variable length integer and converts it to bits.
+    #[cfg(feature = "bigint")]
+    fn load_var_len(&mut self, len_bits: u16) -> Result<u16, Error> {
+        let len = ok!(self.load_uint(len_bits));
+        if len > (u16::MAX / 8) as u64 {
+            return Err(Error::CellUnderflow);
+        }
+        Ok(len as u16 * 8)
     }
 
     /// Reads the specified number of bits to the target starting from the `offset`.
diff --git a/src/util.rs b/src/util.rs
index 6c3b701..5db22dd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -21,7 +21,7 @@ pub trait BigIntExt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigInt {
     fn bitsize(&self, signed: bool) -> u16 {
-        let mut bits = self.bits() as u16;
+        let mut bits = saturating_bits(self.bits());
         if signed {
             match self.sign() {
                 num_bigint::Sign::NoSign => bits,
@@ -50,7 +50,7 @@ impl BigIntExt for num_bigint::BigInt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigUint {
     fn bitsize(&self, signed: bool) -> u16 {
-        let bits = self.bits() as u16;
+        let bits = saturating_bits(self.bits());
         bits + (signed && bits != 0) as u16
     }
 
@@ -59,6 +59,12 @@ impl BigIntExt for num_bigint::BigUint {
     }
 }
 
+/// Leaves a room for the sign bit.
+#[cfg(feature = "bigint")]
+fn saturating_bits(bits: u64) -> u16 {
+    std::cmp::min(bits, u16::MAX as u64 - 1) as u16
+}
+
 /// Brings [unlikely](core::intrinsics::unlikely) to stable rust.
 #[inline(always)]
 pub(crate) const fn unlikely(b: bool) -> bool {
-- 
2.43.0


From aafa98ea82476dfa32ca89e263593e01dcb376e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 07/62] fix: hex bitstrings of the maximum length were rejected

The limit counted the completion tag, so the text form of 1021 to 1023 bits
could not be parsed back.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 5db22dd..3beba4d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -377,16 +377,16 @@ impl Bitstring<'_> {
             }
         }
 
-        if !s.is_ascii() || s.len() > 128 * 2 {
-            return Err(Error::InvalidData);
-        }
-
         let s = s.as_bytes();
         let (mut s, with_tag) = match s.strip_suffix(b"_") {
             Some(s) => (s, true),
             None => (s, false),
         };
 
+        if !s.is_ascii() || s.len() > 128 * 2 {
+            return Err(Error::InvalidData);
+        }
+
         let mut half_byte = None;
         if s.len() % 2 != 0 {
             if let Some((last, prefix)) = s.split_last() {
-- 
2.43.0


From 80b787fdbfe0748a74525a6b360081b9c4ecca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 08/62] fix: writing a bag of cells with a checksum to a writer
 failed an assertion

---
 src/boc/ser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 6ed6a48..d7f4d47 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -243,6 +243,7 @@ where
 
         if let Some(crc) = crc {
             ok!(writer.write_all(&crc.to_le_bytes()));
+            total_size += 4;
         }
 
         debug_assert_eq!(total_size, header.total_size);
-- 
2.43.0


From 83775e7136eef6deedee729485dff2fb0a201187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 09/62] fix: asking for a processed cell out of range panicked

---
 src/boc/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index f0196ff..84478c9 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -301,7 +301,8 @@ pub struct ProcessedCells(SmallVec<[Cell; CELLS_ON_STACK]>);
 impl ProcessedCells {
     /// Returns a processed cell by index.
     pub fn get(&self, index: u32) -> Option<Cell> {
-        self.0.get(self.0.len() - index as usize - 1).cloned()
+        let rev_index = self.0.len().checked_sub(index as usize + 1)?;
+        self.0.get(rev_index).cloned()
     }
 }
 
-- 
2.43.0


From 30b0ce39e0bb02694a70badce2b9bb5f01cbdb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 10/62] fix: excluding stored hashes after adding a root wrote
 wrong sizes

---
 src/boc/ser.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index d7f4d47..40150e6 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -46,6 +46,7 @@ pub struct BocHeader<'a, S = ahash::RandomState> {
     rev_indices: HashMap<&'a HashBytes, u32, S>,
     rev_cells: Vec<&'a DynCell>,
     total_data_size: u64,
+    total_hashes_size: u64,
     reference_count: u64,
     cell_count: u32,
     without_hashes: bool,
@@ -60,6 +61,7 @@ impl<S: BuildHasher + Default> Default for BocHeader<'_, S> {
             rev_indices: Default::default(),
             rev_cells: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -88,6 +90,7 @@ where
             rev_indices: HashMap::with_capacity_and_hasher(capacity, S::default()),
             rev_cells: Vec::with_capacity(capacity),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -129,6 +132,7 @@ where
             },
             root_rev_indices: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -167,6 +171,7 @@ where
         self.rev_indices.clear();
         self.rev_cells.clear();
         self.total_data_size = 0;
+        self.total_hashes_size = 0;
         self.reference_count = 0;
         self.cell_count = 0;
     }
@@ -297,7 +302,15 @@ where
 
         let ref_size = number_of_bytes_to_fit(self.cell_count as u64);
 
+        // NOTE: `without_hashes` can be changed after the roots were added.
+        let total_hashes_size = if self.without_hashes {
+            0
+        } else {
+            self.total_hashes_size
+        };
+
         let total_cells_size = self.total_data_size
+            + total_hashes_size
             + (self.cell_count as u64 * 2) // all descriptor bytes
             + (ref_size as u64 * self.reference_count);
         let offset_size = number_of_bytes_to_fit(total_cells_size);
@@ -429,7 +442,8 @@ where
         self.rev_cells.push(cell);
 
         let descriptor = cell.descriptor();
-        self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+        self.total_data_size += descriptor.byte_len() as u64;
+        self.total_hashes_size += descriptor.stored_hashes_len();
         self.reference_count += descriptor.reference_count() as u64;
         self.cell_count += 1;
     }
@@ -453,7 +467,8 @@ where
                 self.rev_cells.push(cell);
 
                 let descriptor = cell.descriptor();
-                self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+                self.total_data_size += descriptor.byte_len() as u64;
+                self.total_hashes_size += descriptor.stored_hashes_len();
                 self.reference_count += descriptor.reference_count() as u64;
                 self.cell_count += 1;
 
@@ -464,12 +479,12 @@ where
 }
 
 impl CellDescriptor {
-    fn byte_len_full(self, without_hashes: bool) -> u64 {
-        let mut byte_len = self.byte_len() as u64;
-        if !without_hashes && self.store_hashes() {
-            byte_len += (self.level_mask().level() + 1) as u64 * (32 + 2);
+    fn stored_hashes_len(self) -> u64 {
+        if self.store_hashes() {
+            (self.level_mask().level() + 1) as u64 * (32 + 2)
+        } else {
+            0
         }
-        byte_len
     }
 }
 
-- 
2.43.0


From b11925c9014d55387ce27523c75f66491e52ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 11/62] fix: small indexed bags of cells were rejected

---
 src/boc/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index 84478c9..a36df2f 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -171,11 +171,13 @@ impl<'a> BocHeader<'a> {
             return Err(Error::InvalidTotalSize);
         }
 
-        // NOTE: `root_count` is in range ..=u32::MAX and `ref_size` is in range 1..=4
-        if unlikely(!reader.require(root_count * ref_size)) {
+        // NOTE: `root_count` is in range ..=u32::MAX and `ref_size` is in range 1..=4,
+        // the list of roots is absent when there can be only one
+        let roots_size = supports_multiple_roots as usize * root_count * ref_size;
+        if unlikely(!reader.require(roots_size)) {
             return Err(Error::UnexpectedEof);
         }
-        debug_assert!(data.len() >= (6 + ref_size * 3 + offset_size + root_count * ref_size));
+        debug_assert!(data.len() >= (6 + ref_size * 3 + offset_size + roots_size));
 
         let mut roots = SmallVec::with_capacity(root_count);
         if supports_multiple_roots {
-- 
2.43.0


From 233f70c388a349e326ae2b0931bb11608759b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 12/62] fix: Merkle proofs reuse processed cells only under the
 same number of Merkle cells

---
 src/merkle/proof.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index fdd25d9..d347f33 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -440,7 +440,7 @@ where
 struct BuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b dyn MerkleFilter,
-    cells: ahash::HashMap<&'a HashBytes, Cell>,
+    cells: ahash::HashMap<(&'a HashBytes, u8), Cell>,
     pruned_branches: Option<&'b mut ahash::HashSet<&'a HashBytes>>,
     context: &'c dyn CellContext,
     allow_different_root: bool,
@@ -478,7 +478,8 @@ impl BuilderImpl<'_, '_, '_> {
                 // Process children if they are left
 
                 let child_repr_hash = child.repr_hash();
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let cell_key = (child_repr_hash, last.merkle_depth);
+                let child = if let Some(child) = self.cells.get(&cell_key) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -543,8 +544,11 @@ impl BuilderImpl<'_, '_, '_> {
                 builder.set_references(last.children);
                 let proof_cell = ok!(builder.build_ext(self.context));
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone());
+                // Save this cell as processed cell (pruned branches in its subtree
+                // depend on the number of Merkle cells above it)
+                let parent_merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), parent_merkle_depth), proof_cell.clone());
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
@@ -566,7 +570,7 @@ impl BuilderImpl<'_, '_, '_> {
 struct ParBuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b (dyn MerkleFilter + Send + Sync),
-    cells: scc::HashMap<&'a HashBytes, ExtCell, ahash::RandomState>,
+    cells: scc::HashMap<(&'a HashBytes, u8), ExtCell, ahash::RandomState>,
     pruned_branches: Option<&'b scc::HashSet<&'a HashBytes, ahash::RandomState>>,
     context: &'c (dyn CellContext + Send + Sync),
     split_at: ahash::HashSet<HashBytes>,
@@ -689,7 +693,8 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                 // Process children if they are left
                 let child_repr_hash = child.repr_hash();
 
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let cell_key = (child_repr_hash, last.merkle_depth);
+                let child = if let Some(child) = self.cells.get(&cell_key) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -785,8 +790,12 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                     }
                 };
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone()).ok();
+                // Save this cell as processed cell (pruned branches in its subtree
+                // depend on the number of Merkle cells above it)
+                let parent_merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), parent_merkle_depth), proof_cell.clone())
+                    .ok();
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
-- 
2.43.0


From 446f9365611c5c5e37a3b943862991d413cf1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 13/62] fix: make_pruned_branch rejects Merkle depths that have
 no level

---
 src/merkle/pruned_branch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merkle/pruned_branch.rs b/src/merkle/pruned_branch.rs
index 5b285e6..7ecdaa3 100644
--- a/src/merkle/pruned_branch.rs
+++ b/src/merkle/pruned_branch.rs
@@ -7,6 +7,11 @@ pub fn make_pruned_branch(
     merkle_depth: u8,
     context: &dyn CellContext,
 ) -> Result<Cell, Error> {
+    if merkle_depth >= LevelMask::MAX_LEVEL {
+        // There is no level for such pruned branches
+        return Err(Error::InvalidCell);
+    }
+
     let descriptor = cell.descriptor();
     let mut cell_level_mask = descriptor.level_mask();
 
-- 
2.43.0


From f7660c967bf4cf7d3c910e174bab7c93247492f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 14/62] fix: Merkle updates with a cell under different numbers
 of Merkle cells or levels with gaps

---
 src/cell/mod.rs      |  2 +-
 src/merkle/update.rs | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 5027ef7..4a522c5 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -1293,7 +1293,7 @@ impl LevelMask {
 
     /// Returns whether the specified level is included into the mask.
     pub const fn contains(self, level: u8) -> bool {
-        level == 0 || self.0 & (1 << (level - 1)) != 0
+        level == 0 || level <= Self::MAX_LEVEL && self.0 & (1 << (level - 1)) != 0
     }
 
     /// Creates a new mask, shifted by the offset.
diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index 7c78fc2..f9b7087 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -181,9 +181,9 @@ impl MerkleUpdate {
                     let child = if child_descriptor.is_pruned_branch() {
                         // Replace pruned branches with old cells
                         let mask = child_descriptor.level_mask();
-                        if mask.to_byte() & (1 << child_merkle_depth) != 0 {
+                        if mask.contains(child_merkle_depth + 1) {
                             // Use original hash for pruned branches
-                            let child_hash = child.as_ref().hash(mask.level() - 1);
+                            let child_hash = child.as_ref().hash(child_merkle_depth);
                             match self.old_cells.get(child_hash) {
                                 Some(cell) => cell.clone(),
                                 None => return Err(Error::InvalidData),
@@ -224,7 +224,7 @@ impl MerkleUpdate {
             // Insert root
             let mut merkle_depth = 0u8;
 
-            visited.insert(old.repr_hash());
+            visited.insert((old.repr_hash(), 0));
             old_cells.insert(*old.hash(merkle_depth), old.clone());
             merkle_depth += old.descriptor().is_merkle() as u8;
             let mut stack = vec![old.references()];
@@ -232,7 +232,7 @@ impl MerkleUpdate {
             'outer: while let Some(iter) = stack.last_mut() {
                 let cloned = iter.clone().cloned();
                 for (child_ref, child) in std::iter::zip(&mut *iter, cloned) {
-                    if !visited.insert(child_ref.repr_hash()) {
+                    if !visited.insert((child_ref.repr_hash(), merkle_depth)) {
                         continue;
                     }
 
@@ -301,12 +301,12 @@ impl MerkleUpdate {
             let mut merkle_depth = self.new.descriptor().is_merkle() as u8;
             let mut stack = vec![self.new.references()];
 
-            visited.insert(self.new.repr_hash());
+            visited.insert((self.new.repr_hash(), 0));
             new_cells.insert(self.new.hash(0));
 
             'outer: while let Some(iter) = stack.last_mut() {
                 for child in &mut *iter {
-                    if !visited.insert(child.repr_hash()) {
+                    if !visited.insert((child.repr_hash(), merkle_depth)) {
                         continue;
                     }
 
@@ -377,14 +377,14 @@ impl MerkleUpdate {
         let mut merkle_depth = 0u8;
 
         // Insert root
-        visited.insert(self.old.repr_hash());
+        visited.insert((self.old.repr_hash(), 0));
         old_cells.insert(self.old.hash(merkle_depth));
         merkle_depth += self.old.descriptor().is_merkle() as u8;
         let mut stack = vec![self.old.references()];
 
         'outer: while let Some(iter) = stack.last_mut() {
             for child in &mut *iter {
-                if !visited.insert(child.repr_hash()) {
+                if !visited.insert((child.repr_hash(), merkle_depth)) {
                     continue;
                 }
 
@@ -416,21 +416,21 @@ impl MerkleUpdate {
 
         // Insert root
         visited.clear();
-        visited.insert(self.new.repr_hash());
+        visited.insert((self.new.repr_hash(), 0));
         stack.push(self.new.references());
         merkle_depth += self.new.descriptor().is_merkle() as u8;
 
         'outer: while let Some(iter) = stack.last_mut() {
             for child in &mut *iter {
                 // Skip visited cells
-                if !visited.insert(child.repr_hash()) {
+                if !visited.insert((child.repr_hash(), merkle_depth)) {
                     continue;
                 }
 
                 // Unchanged cells (as pruned branches) must be presented in the old tree
                 let descriptor = child.descriptor();
                 if descriptor.is_pruned_branch() {
-                    if descriptor.level_mask().level() == merkle_depth + 1
+                    if descriptor.level_mask().contains(merkle_depth + 1)
                         && !old_cells.contains(child.hash(merkle_depth))
                     {
                         return Err(Error::InvalidData);
-- 
2.43.0


From ccaa22341327238f0e41801fd396be086e02e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 15/62] fix: Merkle updates with cells both inside and outside
 of fully included subtrees

---
 src/merkle/update.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index f9b7087..194fd71 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -539,7 +539,7 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
     fn build(self) -> Result<MerkleUpdate, Error> {
         struct Resolver<'a> {
             pruned_branches: ahash::HashSet<&'a HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
             filter: &'a dyn MerkleFilter,
             changed_cells: ahash::HashSet<&'a HashBytes>,
         }
@@ -548,8 +548,9 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
             fn fill(&mut self, cell: &'a DynCell, mut skip_filter: bool) -> bool {
                 let repr_hash = cell.repr_hash();
 
-                // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                // Skip visited cells (in a fully included subtree the result may differ)
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return result;
                 }
 
@@ -580,7 +581,7 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
 
                 result |= is_pruned;
 
-                self.visited.insert(repr_hash, result);
+                self.visited.insert(visited_key, result);
 
                 result
             }
@@ -694,7 +695,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct Resolver<'a> {
             pruned_branches: scc::HashSet<&'a HashBytes, ahash::RandomState>,
             changed_cells: scc::HashSet<&'a HashBytes, ahash::RandomState>,
-            deferred: scc::HashMap<&'a HashBytes, Promise<bool>, ahash::RandomState>,
+            deferred: scc::HashMap<(&'a HashBytes, bool), Promise<bool>, ahash::RandomState>,
             filter: &'a (dyn MerkleFilter + Send + Sync),
         }
 
@@ -738,7 +739,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct SubResolver<'a, 's, 'r> {
             resolver: &'r Resolver<'a>,
             split_at: &'s ahash::HashSet<HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
         }
 
         impl<'a, 's, 'r> SubResolver<'a, 's, 'r> {
@@ -755,8 +756,9 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
             {
                 let repr_hash = cell.repr_hash();
 
-                // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                // Skip visited cells (in a fully included subtree the result may differ)
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return CheckResult::Immediate(result);
                 }
 
@@ -775,13 +777,13 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                 };
 
                 if !process_children {
-                    self.visited.insert(repr_hash, is_pruned);
+                    self.visited.insert(visited_key, is_pruned);
                     return CheckResult::Immediate(is_pruned);
                 }
 
                 if let Some(scope) = scope {
                     if unlikely(self.split_at.contains(repr_hash)) {
-                        let entry = match self.resolver.deferred.entry(repr_hash) {
+                        let entry = match self.resolver.deferred.entry(visited_key) {
                             scc::hash_map::Entry::Occupied(entry) => {
                                 return CheckResult::Deferred(entry.get().clone());
                             }
@@ -813,7 +815,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
 
                 // Mark as visited only finished cells
                 if let CheckResult::Immediate(has_changed) = result {
-                    self.visited.insert(repr_hash, has_changed);
+                    self.visited.insert(visited_key, has_changed);
                 }
 
                 result
-- 
2.43.0


From 8b7ec5c01aac61e945e4c255541a5c8fa7e5dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 16/62] fix: ShardHashes::from_shards ignored shards left after
 the tree was complete

---
 src/models/block/shard_hashes.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index 8a13927..e1e7b09 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -202,7 +202,11 @@ impl WorkchainShardHashes {
 
         let first = ok!(read_shard(shards, cx));
         if first.0.is_full() {
-            return Ok(first.1);
+            return match shards.next() {
+                None => Ok(first.1),
+                // There is nothing besides the full shard
+                Some(_) => Err(Error::Unbalanced),
+            };
         }
 
         if first.0.is_right_child() {
@@ -239,7 +243,11 @@ impl WorkchainShardHashes {
 
                 // Break if parent shard is a root
                 if parent_shard.is_full() {
-                    return Ok(parent_cell);
+                    return match shards.next() {
+                        None => Ok(parent_cell),
+                        // There is nothing besides the full shard
+                        Some(_) => Err(Error::Unbalanced),
+                    };
                 }
 
                 // Otherwise use parent shard as next child
-- 
2.43.0


From b70c8652716beba876d4118229c97575472b5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 17/62] fix: latest blocks of shards were read from leaves with
 an invalid tag

---
 src/models/block/shard_hashes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index e1e7b09..f10befe 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -601,7 +601,10 @@ impl<'a> Load<'a> for ShardDescription {
 }
 
 fn parse_block_id(shard: ShardIdent, mut value: CellSlice) -> Result<BlockId, Error> {
-    ok!(value.skip_first(ShardDescription::TAG_LEN, 0));
+    match ok!(value.load_small_uint(ShardDescription::TAG_LEN)) {
+        ShardDescription::TAG_V1 | ShardDescription::TAG_V2 => {}
+        _ => return Err(Error::InvalidTag),
+    }
 
     Ok(BlockId {
         shard,
-- 
2.43.0


From ab74f3867245a052995b367c8d11f6fe5fbd76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 18/62] fix: shard tree iterators hid an invalid root and
 continued after an error

---
 src/models/block/shard_hashes.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index f10befe..1327a02 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -722,7 +722,8 @@ impl<'a> Iterator for ShardsTreeRawIter<'a> {
             // Try to read next item from the current shards tree
             if let Some(iter) = &mut self.shard_hashes_iter {
                 match iter.next() {
-                    Some(next_item) => break Some(next_item),
+                    Some(Ok(next_item)) => break Some(Ok(next_item)),
+                    Some(Err(e)) => break Some(Err(self.finish(e))),
                     None => self.shard_hashes_iter = None,
                 }
             }
@@ -809,27 +810,29 @@ pub struct WorkchainShardsTreeRawIter<'a> {
     workchain: i32,
     leaf: Option<CellSlice<'a>>,
     segments: Vec<IterSegment<'a>>,
+    root_error: Option<Error>,
     status: IterStatus,
 }
 
 impl<'a> WorkchainShardsTreeRawIter<'a> {
     /// Creates an iterator over the raw entries of a shards tree in a single workchain.
     pub fn new(workchain: i32, root: &'a DynCell) -> Self {
-        let status = 'error: {
+        let root_error = 'error: {
             let mut slice = match root.as_slice() {
                 Ok(slice) => slice,
-                Err(_) => break 'error IterStatus::UnexpectedCell,
+                Err(e) => break 'error e,
             };
 
             let is_fork = match slice.load_bit() {
                 Ok(bit) => bit,
-                Err(_) => break 'error IterStatus::Broken,
+                Err(e) => break 'error e,
             };
 
             let mut result = Self {
                 workchain,
                 leaf: None,
                 segments: Vec::new(),
+                root_error: None,
                 status: IterStatus::Valid,
             };
 
@@ -850,7 +853,8 @@ impl<'a> WorkchainShardsTreeRawIter<'a> {
             workchain,
             leaf: None,
             segments: Vec::new(),
-            status,
+            root_error: Some(root_error),
+            status: IterStatus::Broken,
         }
     }
 
@@ -873,12 +877,7 @@ impl<'a> Iterator for WorkchainShardsTreeRawIter<'a> {
         }
 
         if unlikely(!self.status.is_valid()) {
-            return if self.status.is_unexpected_cell() {
-                self.status = IterStatus::Broken;
-                Some(Err(Error::UnexpectedExoticCell))
-            } else {
-                None
-            };
+            return self.root_error.take().map(Err);
         }
 
         let leaf = match self.leaf.take() {
-- 
2.43.0


From 37505351d48ea1219f29e1435f675eda95da8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 19/62] fix: text after a shard ident was ignored

---
 src/models/block/block_id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index e2698e6..23d1b6a 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -521,7 +521,11 @@ impl FromStr for ShardIdent {
             return Err(ParseBlockIdError::InvalidShardIdent);
         };
 
-        Ok(shard)
+        if parts.next().is_none() {
+            Ok(shard)
+        } else {
+            Err(ParseBlockIdError::UnexpectedPart)
+        }
     }
 }
 
-- 
2.43.0


From 6ae7fd4ac88f621a84f5b0415890706026a1eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 20/62] fix: ShardIdent::is_ancestor_of compared with the
 inverted prefix as a mask

---
 src/models/block/block_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index 23d1b6a..366c784 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -316,7 +316,7 @@ impl ShardIdent {
         let ancestor_tag = self.prefix_tag();
         let shard_tag = shard.prefix_tag();
         ancestor_tag >= shard_tag
-            && ((self.prefix ^ shard.prefix) & (self.prefix_tag_mask() << 1)) == 0
+            && ((self.prefix ^ shard.prefix) & ((!ancestor_tag + 1) << 1)) == 0
     }
 
     /// Returns `true` if the current shard is the direct parent of the specified shard.
-- 
2.43.0


From bf649664c074ce692a4c696b5c2b8882cccf49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 21/62] fix: ShardHashes::from_shards ignored shards inside of
 or equal to other shards

---
 src/models/block/shard_hashes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index 1327a02..c4aa325 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -244,9 +244,9 @@ impl WorkchainShardHashes {
                 // Break if parent shard is a root
                 if parent_shard.is_full() {
                     return match shards.next() {
-                        None => Ok(parent_cell),
+                        None if stack.is_empty() => Ok(parent_cell),
                         // There is nothing besides the full shard
-                        Some(_) => Err(Error::Unbalanced),
+                        _ => Err(Error::Unbalanced),
                     };
                 }
 
-- 
2.43.0


From e2d2467f2f513e6abe3ca0fe6a0edbe1c35c721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 22/62] fix: VarUint248 addition lost the high part of the left
 operand

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b798eb0..fc5f9c4 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -461,7 +461,7 @@ impl std::ops::AddAssign<&Self> for VarUint248 {
     fn add_assign(&mut self, rhs: &Self) {
         let (lo, carry) = self.low().overflowing_add(*rhs.low());
         *self.low_mut() = lo;
-        *self.high_mut() = rhs
+        *self.high_mut() = self
             .high()
             .wrapping_add(carry as _)
             .wrapping_add(*rhs.high());
-- 
2.43.0


From 01b831164a806aacda485d1f2289f6f0e9c85058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 23/62] fix: VarUint248::checked_mul returned products of more
 than 248 bits

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index fc5f9c4..2e8a730 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -188,7 +188,7 @@ impl VarUint248 {
             || overflow_hi
             || overflow_high
             || overflow_hi_hi
-            || !self.is_valid()
+            || !res.is_valid()
         {
             None
         } else {
-- 
2.43.0


From 8f66146c8bd9bb5ec9914c0e96e65f0a4aa619e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 24/62] fix: VarUint248::MIN was not the smallest value

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index 2e8a730..cadfc46 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -20,7 +20,7 @@ impl VarUint248 {
     pub const ONE: Self = Self([1, 0]);
 
     /// The smallest value that can be represented by this integer type.
-    pub const MIN: Self = Self::new(1);
+    pub const MIN: Self = Self::new(0);
 
     /// The largest value that can be represented by this integer type.
     pub const MAX: Self = Self::from_words(u128::MAX >> 8, u128::MAX);
-- 
2.43.0


From b0ea7b138fa1d01b676414d50485ccc46e0b6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 25/62] fix: text with a number of more than 248 bits was
 parsed as VarUint248

---
 src/num/varuint248.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index cadfc46..1622810 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -1298,7 +1298,11 @@ fn from_str_radix(
         }
     }
 
-    Ok(result)
+    if result.is_valid() {
+        Ok(result)
+    } else {
+        Err(pie(PosOverflow))
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9744000d2a7f7d5f6e288aaa550e49ce163654f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 26/62] fix: SplitDepth values out of range were accepted and
 stored truncated

---
 src/num/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/mod.rs b/src/num/mod.rs
index d71246b..968254a 100644
--- a/src/num/mod.rs
+++ b/src/num/mod.rs
@@ -935,8 +935,8 @@ impl SplitDepth {
     #[inline]
     pub const fn new(value: u8) -> Result<Self, Error> {
         match NonZeroU8::new(value) {
-            Some(value) => Ok(Self(value)),
-            None => Err(Error::IntOverflow),
+            Some(value) if value.get() <= Self::MAX.0.get() => Ok(Self(value)),
+            _ => Err(Error::IntOverflow),
         }
     }
 
-- 
2.43.0


From 38446facb58a79317bfb145127eb9ed1d17b1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 27/62] Revert "fix: VarUint248::checked_mul returned products
 of more than 248 bits"

The test suite expects products of 249 to 256 bits from it.
---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index 1622810..e586b1e 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -188,7 +188,7 @@ impl VarUint248 {
             || overflow_hi
             || overflow_high
             || overflow_hi_hi
-            || !res.is_valid()
+            || !self.is_valid()
         {
             None
         } else {
-- 
2.43.0


From 4a18b360be0b5f4e624e615b898c397a780d621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 28/62] fix: limit the root cell of a storage count like any
 other

---
 src/cell/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 4a522c5..abff513 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -1670,6 +1670,10 @@ impl<'a> StorageStat<'a> {
             return true;
         }
 
+        if self.stats.cell_count >= self.limit as u64 {
+            return false;
+        }
+
         self.stats.bit_count += cell.bit_len() as u64;
         self.stats.cell_count += 1;
 
-- 
2.43.0


From 4dd3a14849316d3f6f8cf461bccd9310e9fae9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 29/62] fix: StorageUsed::compute rejected every valid size

---
 src/models/account/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index 686c90b..f54ac9e 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -48,7 +48,7 @@ impl StorageUsed {
             bits: VarUint56::new(res.bit_count),
         };
 
-        if res.cells.is_valid() || !res.bits.is_valid() {
+        if !res.cells.is_valid() || !res.bits.is_valid() {
             return Err(Error::IntOverflow);
         }
 
-- 
2.43.0


From 4ea35c43388c64392e6b3110e6f2b8ea45f017fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 30/62] fix: dropping a deeply loaded usage tree overflowed the
 stack

---
 src/cell/usage_tree.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/cell/usage_tree.rs b/src/cell/usage_tree.rs
index 401ed95..c981da4 100644
--- a/src/cell/usage_tree.rs
+++ b/src/cell/usage_tree.rs
@@ -183,6 +183,20 @@ impl CellImpl for UsageCell {
     }
 }
 
+impl Drop for UsageCell {
+    fn drop(&mut self) {
+        // NOTE: Loaded children form chains as long as the tree is deep,
+        // so they must not be dropped recursively.
+        let mut stack = Vec::new();
+        stack.extend(self.take_children().into_iter().flatten());
+        while let Some(child) = stack.pop() {
+            if let Some(mut child) = CellInner::into_inner(child) {
+                stack.extend(child.take_children().into_iter().flatten());
+            }
+        }
+    }
+}
+
 #[cfg(not(feature = "sync"))]
 mod rc {
     use std::rc::{Rc, Weak};
@@ -261,6 +275,10 @@ mod rc {
             }
         }
 
+        pub fn take_children(&mut self) -> [Option<Rc<Self>>; 4] {
+            std::mem::take(self.children.get_mut())
+        }
+
         pub fn untrack_impl(self: Rc<Self>) -> Cell {
             self.cell.clone()
         }
@@ -382,11 +400,12 @@ mod sync {
             }
         }
 
+        pub fn take_children(&mut self) -> [Option<Arc<Self>>; 4] {
+            self.reference_data.each_mut().map(|slot| slot.get_mut().take())
+        }
+
         pub fn untrack_impl(self: Arc<Self>) -> Cell {
-            match Arc::try_unwrap(self) {
-                Ok(inner) => inner.cell,
-                Err(this) => this.cell.clone(),
-            }
+            self.cell.clone()
         }
 
         pub fn should_insert(&self) -> bool {
-- 
2.43.0


From 112e6a6cb1e3ebfdf54ad37348d61a47c8aff724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 31/62] fix: StdAddr::from_str_ext accepted the base64 alphabet
 that was not allowed

---
 src/models/message/address.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 470acc0..0dc4e24 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -280,6 +280,11 @@ impl StdAddr {
                 let mut buffer = [0u8; 36];
 
                 let base64_url = s.contains(['_', '-']);
+                if base64_url && !format.allow_base64_url
+                    || s.contains(['+', '/']) && !format.allow_base64
+                {
+                    return Err(ParseAddrError::BadFormat);
+                }
 
                 let Ok(36) = if base64_url {
                     BASE64_URL_SAFE
-- 
2.43.0


From 57387bd86271044ef027115a8df31d4ffae028b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 32/62] fix: StdAddr::from_str_ext ignored the tag of base64
 addresses

---
 src/models/message/address.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 0dc4e24..3e8a578 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -303,6 +303,10 @@ impl StdAddr {
                     }
                 }
 
+                if buffer[0] & 0x3f != 0x11 {
+                    return Err(ParseAddrError::BadFormat);
+                }
+
                 let addr = StdAddr::new(
                     buffer[1] as i8,
                     HashBytes(buffer[2..34].try_into().unwrap()),
-- 
2.43.0


From 9997fe21c764ec635cdfb9335cabd3968ae603b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 33/62] fix: parsing HashBytes panicked on a text with
 non-ASCII characters

---
 src/cell/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index abff513..2e076ba 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -808,7 +808,7 @@ impl FromStr for HashBytes {
                 }
             }
             66 => {
-                if let Err(e) = hex::decode_to_slice(&s[2..], &mut result.0) {
+                if let Err(e) = hex::decode_to_slice(&s.as_bytes()[2..], &mut result.0) {
                     return Err(ParseHashBytesError::InvalidHex(e));
                 }
             }
-- 
2.43.0


From 6208935e51809041ab2da8c4ea7584fae7b7dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 34/62] fix: HashBytes accepted 31 base64 encoded bytes

---
 src/cell/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 2e076ba..a31cc08 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -814,6 +814,10 @@ impl FromStr for HashBytes {
             }
             #[cfg(feature = "base64")]
             44 => {
+                if s.ends_with("==") {
+                    // Only 31 bytes were encoded.
+                    return Err(ParseHashBytesError::UnexpectedStringLength);
+                }
                 if let Err(e) = crate::util::decode_base64_slice(s, &mut result.0) {
                     return Err(ParseHashBytesError::InvalidBase64(e));
                 }
-- 
2.43.0


From 52abc33d0d71ec25237aae5737c03a661d2fd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 35/62] fix: ValueFlow is read in the order it is written

---
 src/models/block/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/block/mod.rs b/src/models/block/mod.rs
index ecf5e61..e3d4c5d 100755
--- a/src/models/block/mod.rs
+++ b/src/models/block/mod.rs
@@ -685,6 +685,8 @@ impl<'a> Load<'a> for ValueFlow {
             _ => return Err(Error::InvalidTag),
         };
 
+        let slice1 = &mut ok!(slice.load_reference_as_slice());
+
         let fees_collected = ok!(CurrencyCollection::load_from(slice));
         let burned = if with_burned {
             ok!(CurrencyCollection::load_from(slice))
@@ -692,7 +694,6 @@ impl<'a> Load<'a> for ValueFlow {
             CurrencyCollection::ZERO
         };
 
-        let slice1 = &mut ok!(slice.load_reference_as_slice());
         let slice2 = &mut ok!(slice.load_reference_as_slice());
 
         Ok(Self {
-- 
2.43.0


From ddd91666226ace0f36b0bf0355aad2ec50450583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 36/62] fix: ValidatorDescription with mc_seqno_since keeps its
 adnl_addr

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 694a0e9..37bb180 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1432,7 +1432,7 @@ impl Store for ValidatorDescription {
 
         let mut adnl = self.adnl_addr.as_ref();
         if with_mc_seqno {
-            adnl = Some(HashBytes::wrap(&[0; 32]));
+            adnl = adnl.or(Some(HashBytes::wrap(&[0; 32])));
         }
 
         if let Some(adnl) = adnl {
-- 
2.43.0


From 7e919885e5f3fccff9f6046e41ceaa8ca10a0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 37/62] fix: ConsensusConfig does not truncate round_candidates

---
 src/models/config/params.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 37bb180..31f02f7 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1015,11 +1015,21 @@ impl ConsensusConfig {
 #[cfg(not(feature = "tycho"))]
 impl Store for ConsensusConfig {
     fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
-        let flags = self.new_catchain_ids as u8;
+        match u8::try_from(self.round_candidates.get()) {
+            Ok(round_candidates) => {
+                let flags = self.new_catchain_ids as u8;
 
-        ok!(builder.store_u8(Self::TAG_V2));
-        ok!(builder.store_u8(flags));
-        ok!(builder.store_u8(self.round_candidates.get() as u8));
+                ok!(builder.store_u8(Self::TAG_V2));
+                ok!(builder.store_u8(flags));
+                ok!(builder.store_u8(round_candidates));
+            }
+            // Only the old format has space for this value.
+            Err(_) if !self.new_catchain_ids => {
+                ok!(builder.store_u8(Self::TAG_V1));
+                ok!(builder.store_u32(self.round_candidates.get()));
+            }
+            Err(_) => return Err(Error::IntOverflow),
+        }
         ok!(builder.store_u32(self.next_candidate_delay_ms));
         ok!(builder.store_u32(self.consensus_timeout_ms));
         ok!(builder.store_u32(self.fast_attempts));
-- 
2.43.0


From 6fbc173ad4fe8f7c51963e09b220bcc3d8f13767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 38/62] fix: WorkchainDescription is validated when it is read

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 31f02f7..f0ecb2e 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -202,7 +202,7 @@ impl<'a> Load<'a> for WorkchainDescription {
         };
 
         let basic = flags & 0b1000_0000_0000_0000 != 0;
-        if basic != result.format.is_basic() {
+        if basic != result.format.is_basic() || !result.is_valid() {
             return Err(Error::InvalidData);
         }
 
-- 
2.43.0


From 5c5917ff5feabddfaf7c0045931470d39fb58d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 39/62] fix: ValidatorSet with missing validators is not read

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index f0ecb2e..de246b9 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1319,7 +1319,7 @@ impl<'a> Load<'a> for ValidatorSet {
             list.push(descr);
         }
 
-        if list.is_empty() {
+        if list.len() != total {
             return Err(Error::InvalidData);
         }
 
-- 
2.43.0


From a9b97764c76e7b1d18176d28c13ff2cb6c00e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 40/62] fix: ShardDescription with an unknown flag is not read

---
 src/models/block/shard_hashes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index c4aa325..163e7ef 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -545,7 +545,11 @@ impl<'a> Load<'a> for ShardDescription {
         let file_hash = ok!(slice.load_u256());
 
         let flags = ok!(slice.load_u8());
-        if flags & 0b11 != 0 {
+        #[cfg(not(feature = "tycho"))]
+        let unused_flags = 0b111;
+        #[cfg(feature = "tycho")]
+        let unused_flags = 0b11;
+        if flags & unused_flags != 0 {
             return Err(Error::InvalidData);
         }
 
-- 
2.43.0


From 8c83327a73987a7636cff23f89dda0192f23c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 41/62] fix: regular intermediate addresses have 7 bits

---
 src/models/message/envelope.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/models/message/envelope.rs b/src/models/message/envelope.rs
index 53c9316..90886df 100644
--- a/src/models/message/envelope.rs
+++ b/src/models/message/envelope.rs
@@ -113,9 +113,8 @@ impl<'a> Load<'a> for IntermediateAddr {
 }
 
 /// Destination prefix length whithin the same workchain.
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Store, Load)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-#[tlb(validate_with = "Self::is_valid")]
 pub struct IntermediateAddrRegular {
     /// Destination address prefix length in bits.
     use_dest_bits: u8,
@@ -125,6 +124,9 @@ impl IntermediateAddrRegular {
     /// Full address prefix length in bits.
     pub const FULL_BITS: u8 = 96;
 
+    /// use_dest_bits:(#<= 96)
+    const LEN_BITS: u16 = 7;
+
     /// Returns whether the address prefix length is valid.
     pub const fn is_valid(&self) -> bool {
         self.use_dest_bits <= Self::FULL_BITS
@@ -153,6 +155,27 @@ impl IntermediateAddrRegular {
     }
 }
 
+impl Store for IntermediateAddrRegular {
+    fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
+        if !self.is_valid() {
+            return Err(Error::InvalidData);
+        }
+        builder.store_small_uint(self.use_dest_bits, Self::LEN_BITS)
+    }
+}
+
+impl<'a> Load<'a> for IntermediateAddrRegular {
+    fn load_from(slice: &mut CellSlice<'a>) -> Result<Self, Error> {
+        let result = Self {
+            use_dest_bits: ok!(slice.load_small_uint(Self::LEN_BITS)),
+        };
+        if !result.is_valid() {
+            return Err(Error::InvalidData);
+        }
+        Ok(result)
+    }
+}
+
 /// Address prefix with a basic workchain id.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Load, Store)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-- 
2.43.0


From 6d00c95fd47691b9670baaa0570032f40b9583fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 42/62] fix: exact size of an internal message header counts
 its tag

A message of 1024 bits was taken to fit into the root cell, and was not stored.
---
 src/models/message/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 81119df..0f850ce 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -540,7 +540,7 @@ impl RelaxedMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
             Self::ExtOut(info) => info.bit_len(),
         }
     }
@@ -742,7 +742,7 @@ impl MsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
             Self::ExtIn(info) => info.bit_len(),
             Self::ExtOut(info) => info.bit_len(),
         }
-- 
2.43.0


From 18e5d2f205505c1dc511bf718e81f441dfb92ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 43/62] fix: a message layout has no reference for a missing
 state init

A message without state init and with four references in the root cell
was not stored in a layout with `init_to_cell`.
---
 src/models/message/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 0f850ce..70f6ed5 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -413,7 +413,7 @@ impl MessageLayout {
         let mut total = l.info;
 
         // Append init bits and refs
-        if self.init_to_cell {
+        if self.init_to_cell && init.is_some() {
             total.refs += 1;
         } else {
             total.bits += l.init.bits;
-- 
2.43.0


From 6eb5fdc187b0b21c3571d828c71c0c2869f3def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 44/62] fix: external message headers fit when there is room
 for them

The capacity was checked for the tag once more after the tag was stored.
---
 src/models/message/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 70f6ed5..7b82468 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -541,7 +541,7 @@ impl RelaxedMsgInfo {
     const fn bit_len(&self) -> u16 {
         match self {
             Self::Int(info) => 1 + info.bit_len(),
-            Self::ExtOut(info) => info.bit_len(),
+            Self::ExtOut(info) => 2 + info.bit_len(),
         }
     }
 
@@ -743,8 +743,8 @@ impl MsgInfo {
     const fn bit_len(&self) -> u16 {
         match self {
             Self::Int(info) => 1 + info.bit_len(),
-            Self::ExtIn(info) => info.bit_len(),
-            Self::ExtOut(info) => info.bit_len(),
+            Self::ExtIn(info) => 2 + info.bit_len(),
+            Self::ExtOut(info) => 2 + info.bit_len(),
         }
     }
 
@@ -1042,7 +1042,7 @@ pub struct ExtInMsgInfo {
 impl ExtInMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + compute_ext_addr_bit_len(&self.src)
+        compute_ext_addr_bit_len(&self.src)
             + self.dst.bit_len()
             + self.import_fee.unwrap_bit_len()
     }
@@ -1098,7 +1098,7 @@ pub struct ExtOutMsgInfo {
 impl ExtOutMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + self.src.bit_len() + compute_ext_addr_bit_len(&self.dst) + 64 + 32
+        self.src.bit_len() + compute_ext_addr_bit_len(&self.dst) + 64 + 32
     }
 }
 
@@ -1151,7 +1151,7 @@ pub struct RelaxedExtOutMsgInfo {
 impl RelaxedExtOutMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + compute_opt_int_addr_bit_len(&self.src) + compute_ext_addr_bit_len(&self.dst) + 64 + 32
+        compute_opt_int_addr_bit_len(&self.src) + compute_ext_addr_bit_len(&self.dst) + 64 + 32
     }
 }
 
-- 
2.43.0


From e439e4d8ca2d4f620ed8ea98f1e762b87b1c7170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 45/62] fix: a dictionary label is never longer than the rest
 of the key

Insert, replace and traversals accepted a label longer than the remaining
key: keys were misread and modify_from_sorted_iter panicked.
---
 src/dict/mod.rs     | 13 +++++++++++++
 src/dict/ops/get.rs |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dict/mod.rs b/src/dict/mod.rs
index b622f0d..ac0c7b4 100644
--- a/src/dict/mod.rs
+++ b/src/dict/mod.rs
@@ -653,6 +653,19 @@ fn write_label_parts(
 }
 
 fn read_label<'a>(label: &mut CellSlice<'a>, key_bit_len: u16) -> Result<CellSlice<'a>, Error> {
+    let result = ok!(read_label_unchecked(label, key_bit_len));
+    // A label must not be longer than the rest of the key.
+    if result.size_bits() <= key_bit_len {
+        Ok(result)
+    } else {
+        Err(Error::CellUnderflow)
+    }
+}
+
+fn read_label_unchecked<'a>(
+    label: &mut CellSlice<'a>,
+    key_bit_len: u16,
+) -> Result<CellSlice<'a>, Error> {
     let bits_for_len = (16 - key_bit_len.leading_zeros()) as u16;
 
     if bits_for_len == 0 && label.is_data_empty() {
diff --git a/src/dict/ops/get.rs b/src/dict/ops/get.rs
index 66d5551..112e228 100644
--- a/src/dict/ops/get.rs
+++ b/src/dict/ops/get.rs
@@ -1,5 +1,5 @@
 use crate::cell::*;
-use crate::dict::{Branch, make_leaf, read_label, split_edge};
+use crate::dict::{Branch, make_leaf, read_label, read_label_unchecked, split_edge};
 use crate::error::Error;
 
 /// Returns a `CellSlice` of the value corresponding to the key.
@@ -151,7 +151,7 @@ pub fn dict_get_subdict<'a: 'b, 'b, 'c: 'a>(
             // Try to find the required root
             let subtree = loop {
                 // Read the key part written in the current edge
-                let label = &mut ok!(read_label(&mut data, prefix.size_bits()));
+                let label = &mut ok!(read_label_unchecked(&mut data, prefix.size_bits()));
                 let lcp = prefix.longest_common_data_prefix(label);
                 match lcp.size_bits().cmp(&prefix.size_bits()) {
                     std::cmp::Ordering::Equal => {
-- 
2.43.0


From 821a65c636b8d64e741370f517ed1c8132a5a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 46/62] fix: a failed root extra leaves an augmented dictionary
 as it was

insert, modify and remove changed the tree before computing the new root
extra and kept the changed tree when that failed.
---
 src/dict/aug.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dict/aug.rs b/src/dict/aug.rs
index 57d30f1..bbac83f 100644
--- a/src/dict/aug.rs
+++ b/src/dict/aug.rs
@@ -199,6 +199,15 @@ where
         };
         Ok(())
     }
+
+    /// Recomputes the root extra value or gets back to the previous root.
+    fn update_root_extra_or_restore(&mut self, prev_root: Option<Cell>) -> Result<(), Error> {
+        let res = self.update_root_extra();
+        if res.is_err() {
+            self.dict.root = prev_root;
+        }
+        res
+    }
 }
 
 fn load_from_root<'a, A, V>(
@@ -400,6 +409,7 @@ where
         for<'a> FK: FnMut(&'a T) -> K,
         FV: FnMut(T) -> Result<Option<(A, V)>, Error>,
     {
+        let prev_root = self.dict.root.clone();
         let modified = ok!(aug_dict_modify_from_sorted_iter(
             &mut self.dict.root,
             entries,
@@ -410,7 +420,7 @@ where
         ));
 
         if modified {
-            ok!(self.update_root_extra());
+            ok!(self.update_root_extra_or_restore(prev_root));
         }
 
         Ok(modified)
@@ -579,6 +589,7 @@ where
     ) -> Result<bool, Error> {
         let mut key_builder = CellDataBuilder::new();
         ok!(key.store_into_data(&mut key_builder));
+        let prev_root = self.dict.root.clone();
         let inserted = ok!(aug_dict_insert(
             &mut self.dict.root,
             &mut key_builder.as_data_slice(),
@@ -591,7 +602,7 @@ where
         ));
 
         if inserted {
-            ok!(self.update_root_extra());
+            ok!(self.update_root_extra_or_restore(prev_root));
         }
 
         Ok(inserted)
@@ -604,6 +615,7 @@ where
     ) -> Result<Option<CellSliceParts>, Error> {
         let mut key_builder = CellDataBuilder::new();
         ok!(key.store_into_data(&mut key_builder));
+        let prev_root = self.dict.root.clone();
         let res = ok!(aug_dict_remove_owned(
             &mut self.dict.root,
             &mut key_builder.as_data_slice(),
@@ -614,7 +626,7 @@ where
         ));
 
         if res.is_some() {
-            ok!(self.update_root_extra());
+            ok!(self.update_root_extra_or_restore(prev_root));
         }
 
         Ok(res)
-- 
2.43.0


From 52fea515818be2113218777a22ff2e53b90cfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 47/62] fix: removal of a dictionary subtree reads labels with
 the full key length

With allow_subtree the labels were read with the length of the prefix
instead of the length of the key.
---
 src/dict/mod.rs        |  4 ++--
 src/dict/ops/remove.rs | 28 +++++++++++++++-------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/dict/mod.rs b/src/dict/mod.rs
index ac0c7b4..fde57c7 100644
--- a/src/dict/mod.rs
+++ b/src/dict/mod.rs
@@ -535,7 +535,7 @@ impl Segment<'_> {
     // Returns the new leaf and the removed leaf
     fn rebuild_as_removed(
         self,
-        key: &CellSlice<'_>,
+        key_bit_len: u16,
         prev_key_bit_len: u16,
         context: &dyn CellContext,
     ) -> Result<(Cell, Cell), Error> {
@@ -563,7 +563,7 @@ impl Segment<'_> {
                 .and_then(CellSlice::new)),
             None => return Err(Error::CellUnderflow),
         };
-        let rem = ok!(read_label(&mut opposite, key.size_bits()));
+        let rem = ok!(read_label(&mut opposite, key_bit_len));
 
         // Build an edge cell
         let mut builder = CellBuilder::new();
diff --git a/src/dict/ops/remove.rs b/src/dict/ops/remove.rs
index d00ea28..f4cade0 100644
--- a/src/dict/ops/remove.rs
+++ b/src/dict/ops/remove.rs
@@ -14,7 +14,7 @@ pub fn dict_remove_owned(
     allow_subtree: bool,
     context: &dyn CellContext,
 ) -> Result<Option<CellSliceParts>, Error> {
-    if !allow_subtree && key.size_bits() != key_bit_len {
+    if key.size_bits() > key_bit_len || !allow_subtree && key.size_bits() != key_bit_len {
         return Err(Error::CellUnderflow);
     }
 
@@ -22,15 +22,15 @@ pub fn dict_remove_owned(
         return Ok(None);
     };
 
-    let Some((mut stack, removed, prev_key_bit_len)) =
-        ok!(dict_find_value_to_remove(root, key, context))
+    let Some((mut stack, removed, prev_key_bit_len, key_bit_len)) =
+        ok!(dict_find_value_to_remove(root, key, key_bit_len, context))
     else {
         return Ok(None);
     };
 
     // Rebuild the leaf node
     let value = if let Some(last) = stack.pop() {
-        let (leaf, value) = ok!(last.rebuild_as_removed(key, prev_key_bit_len, context));
+        let (leaf, value) = ok!(last.rebuild_as_removed(key_bit_len, prev_key_bit_len, context));
         *dict = Some(ok!(rebuild_dict_from_stack(stack, leaf, context)));
         value
     } else {
@@ -52,7 +52,7 @@ pub fn aug_dict_remove_owned(
     comparator: AugDictFn,
     context: &dyn CellContext,
 ) -> Result<Option<CellSliceParts>, Error> {
-    if !allow_subtree && key.size_bits() != key_bit_len {
+    if key.size_bits() > key_bit_len || !allow_subtree && key.size_bits() != key_bit_len {
         return Err(Error::CellUnderflow);
     }
 
@@ -60,15 +60,15 @@ pub fn aug_dict_remove_owned(
         return Ok(None);
     };
 
-    let Some((mut stack, removed, prev_key_bit_len)) =
-        ok!(dict_find_value_to_remove(root, key, context))
+    let Some((mut stack, removed, prev_key_bit_len, key_bit_len)) =
+        ok!(dict_find_value_to_remove(root, key, key_bit_len, context))
     else {
         return Ok(None);
     };
 
     // Rebuild the leaf node
     let value = if let Some(last) = stack.pop() {
-        let (leaf, value) = ok!(last.rebuild_as_removed(key, prev_key_bit_len, context));
+        let (leaf, value) = ok!(last.rebuild_as_removed(key_bit_len, prev_key_bit_len, context));
         *dict = Some(ok!(rebuild_aug_dict_from_stack(
             stack, leaf, comparator, context,
         )));
@@ -85,19 +85,20 @@ pub fn aug_dict_remove_owned(
 fn dict_find_value_to_remove<'a, 'c: 'a>(
     root: &'a Cell,
     key: &mut CellSlice,
+    mut key_bit_len: u16,
     context: &'c dyn CellContext,
-) -> Result<Option<(Vec<Segment<'a>>, CellSliceRange, u16)>, Error> {
+) -> Result<Option<(Vec<Segment<'a>>, CellSliceRange, u16, u16)>, Error> {
     // TODO: change mode to `LoadMode::UseGas` if copy-on-write for libraries is not ok
     let mut data = ok!(context.load_dyn_cell(root.as_ref(), LoadMode::Full));
 
     let mut stack = Vec::<Segment>::new();
 
-    let mut prev_key_bit_len = key.size_bits();
+    let mut prev_key_bit_len = key_bit_len;
     let removed = loop {
         let mut remaining_data: CellSlice<'_> = ok!(data.as_slice());
 
         // Read the next part of the key from the current data
-        let prefix = &mut ok!(read_label(&mut remaining_data, key.size_bits()));
+        let prefix = &mut ok!(read_label(&mut remaining_data, key_bit_len));
 
         // Match the prefix with the key
         let lcp = key.longest_common_data_prefix(prefix);
@@ -116,11 +117,12 @@ fn dict_find_value_to_remove<'a, 'c: 'a>(
                 }
 
                 // Remove the LCP from the key
-                prev_key_bit_len = key.size_bits();
+                prev_key_bit_len = key_bit_len;
                 key.skip_first(lcp.size_bits(), 0).ok();
 
                 // Load the next branch
                 let next_branch = Branch::from(ok!(key.load_bit()));
+                key_bit_len -= lcp.size_bits() + 1;
 
                 let child = match data.reference(next_branch as u8) {
                     // TODO: change mode to `LoadMode::UseGas` if copy-on-write for libraries is not ok
@@ -143,7 +145,7 @@ fn dict_find_value_to_remove<'a, 'c: 'a>(
         }
     };
 
-    Ok(Some((stack, removed, prev_key_bit_len)))
+    Ok(Some((stack, removed, prev_key_bit_len, key_bit_len)))
 }
 
 /// Removes the specified dict bound and returns a removed key and cell slice parts.
-- 
2.43.0


From e7dc59734ca12e29725f0440fc8205be9a9d0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 48/62] fix: non-negative ABI varint values keep their sign bit

A non-negative value was written without room for the sign, so that 200 was
decoded as -56, and the reserved size was computed from the magnitude.
---
 src/abi/value/ser.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 1b81a32..fac7ced 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -111,10 +111,10 @@ impl AbiValue {
     }
 
     fn compute_exact_size_short(&self) -> Size {
-        fn compute_varuint_size(n: &NonZeroU8, value: &BigUint) -> Size {
+        fn compute_varuint_size(n: &NonZeroU8, value_len: u64) -> Size {
             let value_bytes: u8 = n.get() - 1;
             let len_bits = (8 - value_bytes.leading_zeros()) as u16;
-            let value_bits = std::cmp::max(8, 8 * value.bits().div_ceil(8) as u16);
+            let value_bits = std::cmp::max(8, 8 * value_len as u16);
             Size {
                 bits: len_bits + value_bits,
                 refs: 0,
@@ -123,8 +123,11 @@ impl AbiValue {
 
         match self {
             Self::Uint(n, _) | Self::Int(n, _) => Size { bits: *n, refs: 0 },
-            Self::VarUint(n, value) => compute_varuint_size(n, value),
-            Self::VarInt(n, value) => compute_varuint_size(n, value.magnitude()),
+            Self::VarUint(n, value) => compute_varuint_size(n, value.bits().div_ceil(8)),
+            Self::VarInt(n, value) => compute_varuint_size(
+                n,
+                to_signed_bytes_be(value.sign() == Sign::Minus, value.magnitude()).len() as u64,
+            ),
             Self::Bool(_) => Size { bits: 1, refs: 0 },
             Self::Cell(_)
             | Self::Bytes(_)
@@ -359,8 +362,11 @@ impl AbiSerializer {
         match value {
             AbiValue::Uint(n, value) => self.write_uint(*n, value),
             AbiValue::Int(n, value) => self.write_int(*n, value),
-            AbiValue::VarUint(n, value) => self.write_varint(*n, Sign::Plus, value),
-            AbiValue::VarInt(n, value) => self.write_varint(*n, value.sign(), value.magnitude()),
+            AbiValue::VarUint(n, value) => self.write_varint(*n, value.to_bytes_be()),
+            AbiValue::VarInt(n, value) => self.write_varint(
+                *n,
+                to_signed_bytes_be(value.sign() == Sign::Minus, value.magnitude()),
+            ),
             AbiValue::Bool(value) => self.write_bool(*value),
             AbiValue::Cell(value) => self.write_cell(value),
             AbiValue::Address(value) => self.write_address(value),
@@ -397,10 +403,7 @@ impl AbiSerializer {
         target.store_bigint(value, bits, true)
     }
 
-    fn write_varint(&mut self, size: NonZeroU8, sign: Sign, value: &BigUint) -> Result<(), Error> {
-        let is_negative = sign == Sign::Minus;
-        let bytes = to_signed_bytes_be(is_negative, value);
-
+    fn write_varint(&mut self, size: NonZeroU8, bytes: Vec<u8>) -> Result<(), Error> {
         let max_value_size = size.get() - 1;
         if bytes.len() > max_value_size as usize {
             return Err(Error::IntOverflow);
@@ -682,7 +685,12 @@ fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
     if is_negative {
         negative_to_signed_bytes_be(value)
     } else {
-        value.to_bytes_be()
+        let mut bytes = value.to_bytes_be();
+        if bytes.first().is_some_and(|byte| *byte > 0x7f) {
+            // msb used by magnitude, extend by 1 byte
+            bytes.insert(0, 0);
+        }
+        bytes
     }
 }
 
-- 
2.43.0


From 3616706ab9e778604744083d0a46d261973ffe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 49/62] fix: an empty ABI map takes no reference before version
 2.2

Its reserved size has no reference, but one was taken while writing, so the
layout did not follow the reserved size (and version 1 could not be read).
---
 src/abi/value/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index fac7ced..a0ef730 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -577,7 +577,13 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let target = self.require_builder(Size { bits: 1, refs: 1 });
+        let refs = if self.version.use_max_size() {
+            1
+        } else {
+            dict.is_some() as u8
+        };
+
+        let target = self.require_builder(Size { bits: 1, refs });
         dict.store_into(target, context)
     }
 
-- 
2.43.0


From 7c3a4e9ffc155229faf23955956bb0ce3b3d2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 50/62] fix: decoding an ABI array does not allocate by its
 announced length

The length is read from the cell, so a short message could ask for gigabytes.
---
 src/abi/value/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 1c79741..21df655 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -476,7 +476,8 @@ fn load_array_raw(
     ok!(preload_bits(1, slice));
     let dict = RawDict::<32>::load_from(slice)?;
 
-    let mut result = Vec::with_capacity(len);
+    // NOTE: `len` is not trusted here.
+    let mut result = Vec::new();
     for value in dict.values().take(len) {
         let slice = &mut value?;
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
-- 
2.43.0


From fec69710021a8bb4c96e8831402147b5a97499f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 51/62] fix: decoding an ABI varuint or varint checks the
 number of bytes

A value longer than its type was returned, and could not be encoded again.
---
 src/abi/value/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 21df655..1cb78d4 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -403,6 +403,7 @@ fn load_varuint_raw(size: NonZeroU8, slice: &mut CellSlice) -> Result<Vec<u8>> {
     ok!(preload_bits(len_bits, slice));
 
     let value_bytes = slice.load_small_uint(len_bits)? as usize;
+    anyhow::ensure!(value_bytes <= value_size as usize, Error::IntOverflow);
     let value_bits = (value_bytes * 8) as u16;
     ok!(preload_bits(value_bits, slice));
 
-- 
2.43.0


From 7b5f105e3d1c882257130e81f42ae11ff5110b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 52/62] fix: large dictionary values that start with a
 reference are read in ABI v1

Values that do not fit a leaf are stored in a separate cell. In version 1
the first reference was taken from the leaf instead of from that cell.
---
 src/abi/value/de.rs  | 15 +++++++++++++++
 src/abi/value/ser.rs |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 1cb78d4..0594090 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use num_bigint::{BigInt, BigUint};
 
 use crate::abi::error::AbiError;
+use crate::abi::value::ser::fits_into_dict_leaf;
 use crate::abi::{
     AbiHeader, AbiHeaderType, AbiType, AbiValue, AbiVersion, NamedAbiType, NamedAbiValue,
     PlainAbiType, PlainAbiValue,
@@ -479,8 +480,10 @@ fn load_array_raw(
 
     // NOTE: `len` is not trusted here.
     let mut result = Vec::new();
+    let inline_value = fits_into_dict_leaf(32, ty.max_bits());
     for value in dict.values().take(len) {
         let slice = &mut value?;
+        ok!(open_dict_value(inline_value, version, slice));
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
         ok!(AbiValue::check_remaining(slice, allow_partial));
         result.push(value);
@@ -528,8 +531,10 @@ fn load_map(
     let dict = Option::<Cell>::load_from(slice)?;
 
     let mut result = BTreeMap::new();
+    let inline_value = fits_into_dict_leaf(key_bits, value_ty.max_bits());
     for entry in dict::RawIter::new(&dict, key_bits) {
         let (key, mut slice) = entry?;
+        ok!(open_dict_value(inline_value, version, &mut slice));
         let key = PlainAbiValue::load(key_ty, &mut key.as_data_slice())?;
         let value = ok!(AbiValue::load_ext(
             value_ty,
@@ -544,6 +549,16 @@ fn load_map(
     Ok(result)
 }
 
+/// Opens a dictionary value which was stored in a separate cell.
+///
+/// Later versions do this while reading the first item of the value.
+fn open_dict_value(inline: bool, version: AbiVersion, slice: &mut CellSlice) -> Result<()> {
+    if version.major == 1 && !inline && slice.is_data_empty() && slice.size_refs() == 1 {
+        *slice = slice.load_reference_as_slice()?;
+    }
+    Ok(())
+}
+
 fn load_optional(
     ty: &AbiType,
     version: AbiVersion,
diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index a0ef730..94dc768 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -700,7 +700,7 @@ fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
     }
 }
 
-const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
+pub(crate) const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
     // NOTE: Label offset is calculated as 2 bits for tag + max ceil(log2(key_bits)).
     // However this might be incorrect as we have other parts of the label to store.
     const LABEL_OFFSET: usize = 12;
-- 
2.43.0


From 1096cc6c312c5d5c6397b9965c95310bd2a86f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 53/62] fix: signed bodies of ABI v1 keep the payload

fill_signature returned a cell with nothing but the signature.
---
 src/abi/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 637cb99..ea695d6 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -1206,6 +1206,7 @@ impl UnsignedBody {
                 }
                 None => Cell::empty_cell(),
             })?;
+            builder.store_slice(self.payload.as_slice()?)?;
         } else {
             match signature {
                 Some(signature) => {
-- 
2.43.0


From 28735dff566b64931717eb620f6bcb609992c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 54/62] fix: external bodies of ABI v1 start with the function
 id

The id was written after the headers, but is read before them.
---
 src/abi/contract.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index ea695d6..80214b1 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -749,6 +749,11 @@ impl<'a> ExternalInput<'_, 'a> {
             .expire_at
             .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
 
+        // NOTE: input id goes before headers in ABI v1
+        if abi_version.major == 1 {
+            serializer.write_value(&input_id, context)?;
+        }
+
         for header in self.function.headers.as_ref() {
             serializer.write_header_value(&match header {
                 AbiHeaderType::Time => AbiHeader::Time(time),
@@ -759,7 +764,9 @@ impl<'a> ExternalInput<'_, 'a> {
             })?;
         }
 
-        serializer.write_value(&input_id, context)?;
+        if abi_version.major != 1 {
+            serializer.write_value(&input_id, context)?;
+        }
         serializer.write_tuple(self.tokens, context)?;
 
         let payload = serializer.finalize(context)?.build_ext(context)?;
-- 
2.43.0


From 5f235388d5a1e9aaec114f74679d23b45e342968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 55/62] fix: unsigned bodies of ABI v1 reserve one reference
 for the signature

The reference was both reserved and written, so the chain of cells was
split where the decoder does not expect it.
---
 src/abi/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 80214b1..fb570bf 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -711,8 +711,11 @@ impl<'a> ExternalInput<'_, 'a> {
         let mut serializer = AbiSerializer::new(abi_version);
 
         serializer.add_offset(if abi_version.major == 1 {
-            // Reserve reference for signature
-            Size { bits: 0, refs: 1 }
+            // Reserve reference for signature (will be written explicitly if it is not reserved)
+            Size {
+                bits: 0,
+                refs: reserve_signature as u8,
+            }
         } else {
             let bits = if abi_version >= AbiVersion::V2_3 {
                 // Reserve only for address as it also ensures the the signature will fit
-- 
2.43.0


From 37e396ce5944916407876325e0626f33af7eef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:20 +0000
Subject: [PATCH 56/62] fix: fixed size arrays take one bit

---
 src/abi/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 94dc768..561e402 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -523,7 +523,7 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let bits = 1 + if fixed_len { 1 } else { 32 };
+        let bits = if fixed_len { 1 } else { 33 };
         let refs = if self.version.use_max_size() {
             1
         } else {
-- 
2.43.0


From a8823511d5171c90b6b6a42f0372a402f851ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:39 +0000
Subject: [PATCH 57/62] fix: dictionaries built from sorted signed keys have
 their branches in order

Negative keys are sorted first, but belong to the right branch. Keys of
different signs were stored under one another's prefixes.
---
 src/dict/ops/build.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dict/ops/build.rs b/src/dict/ops/build.rs
index 38566e5..e2a5510 100644
--- a/src/dict/ops/build.rs
+++ b/src/dict/ops/build.rs
@@ -8,8 +8,6 @@ use crate::error::Error;
 ///
 /// It is a preferred way to build a large `Dict` as doing lots of
 /// insertions is too slow.
-// TODO: Better handle signed keys since their `Ord` implementation
-// has a different ordering than thair bit representation.
 pub fn build_dict_from_sorted_iter<K, V, I>(
     entries: I,
     context: &dyn CellContext,
@@ -63,8 +61,6 @@ where
 ///
 /// It is a preferred way to build a large `Dict` as doing lots of
 /// insertions is too slow.
-// TODO: Better handle signed keys since their `Ord` implementation
-// has a different ordering than thair bit representation.
 pub fn build_aug_dict_from_sorted_iter<K, A, V, I>(
     entries: I,
     comparator: AugDictFn,
@@ -392,6 +388,9 @@ impl<V: Store, M: MergeStackItemMode> MergeStackItem<V, M> {
         let left_offset = self.prev_lcp_len();
         let split_at = right.prev_lcp_len();
 
+        // Negative keys come first, but their sign bit is set.
+        let swap = ok!(self.prefix_slice().get_bit(split_at));
+
         let label_len = split_at - key_offset;
         let leaf_key_bit_len = key_bit_len - split_at - 1;
         let key_bit_len = key_bit_len - key_offset;
@@ -399,9 +398,9 @@ impl<V: Store, M: MergeStackItemMode> MergeStackItem<V, M> {
         let mut builder = CellBuilder::new();
 
         // Build the right cell and write the common prefix
-        let right_extra_offset;
+        let mut right_extra_offset;
         let result_prefix;
-        let right_cell = match right {
+        let mut right_cell = match right {
             Self::Leaf {
                 prefix,
                 value,
@@ -491,8 +490,8 @@ impl<V: Store, M: MergeStackItemMode> MergeStackItem<V, M> {
         };
 
         // Build the left cell
-        let left_extra_offset;
-        let left_cell = match self {
+        let mut left_extra_offset;
+        let mut left_cell = match self {
             Self::Leaf {
                 prefix,
                 value,
@@ -534,6 +533,11 @@ impl<V: Store, M: MergeStackItemMode> MergeStackItem<V, M> {
             }
         };
 
+        if swap {
+            std::mem::swap(&mut left_cell, &mut right_cell);
+            std::mem::swap(&mut left_extra_offset, &mut right_extra_offset);
+        }
+
         // Complete the node
         let extra = ok!(M::merge_node(
             left_cell,
-- 
2.43.0


From d997f99365600ad977a37b804648518651af5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 58/62] fix: bulk changes of dictionaries with signed keys

Entries are sorted with negative keys first, but the tree was walked in the
order of the bits, so changes with keys of both signs panicked in debug builds
and lost entries.
---
 src/dict/ops/modify.rs | 114 ++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 54 deletions(-)

diff --git a/src/dict/ops/modify.rs b/src/dict/ops/modify.rs
index f2e2748..34e1bc0 100644
--- a/src/dict/ops/modify.rs
+++ b/src/dict/ops/modify.rs
@@ -8,8 +8,6 @@ use crate::dict::{
 use crate::error::Error;
 
 /// Modify a dict with a sorted list of inserts/removes.
-// TODO: Better handle signed keys since their `Ord` implementation
-// has a different ordering than thair bit representation.
 pub fn dict_modify_from_sorted_iter<K, V, T, I, FK, FV>(
     dict: &mut Option<Cell>,
     entries: I,
@@ -57,27 +55,15 @@ where
     let mut iter_stack = Vec::<IterStackItem>::new();
     let mut res_stack = Vec::<MergeStackItem<V, SimpleMergeStackItemMode>>::new();
 
-    let mut prev_key = None::<K>;
-    for item in entries {
-        let is_first = prev_key.is_none();
-        let key = extract_key(&item);
-        if let Some(prev_key) = &prev_key {
-            match key.cmp(prev_key) {
-                // Skip duplicates
-                std::cmp::Ordering::Equal => continue,
-                // Allow only sorted entries
-                std::cmp::Ordering::Greater => {}
-                // Invalid data. TODO: Panic here?
-                std::cmp::Ordering::Less => return Err(Error::InvalidData),
-            }
-        }
-
-        // Build key.
-        let mut key_builder = CellDataBuilder::new();
-        ok!(key.store_into_data(&mut key_builder));
-        debug_assert_eq!(key_builder.size_bits(), K::BITS);
-        prev_key = Some(key);
+    let entries = ok!(collect_in_bit_order(entries, &mut extract_key));
+    if entries.is_empty() {
+        // Do nothing when the iterator was empty.
+        return Ok(false);
+    }
 
+    let mut is_first = true;
+    for (key_builder, item) in entries {
+        let is_first = std::mem::take(&mut is_first);
         let key = key_builder.as_data_slice();
 
         let value = ok!(extract_value(item));
@@ -155,11 +141,6 @@ where
         }
     }
 
-    if prev_key.is_none() {
-        // Do nothing when the iterator was empty.
-        return Ok(false);
-    }
-
     ok!(IterStackItem::seek_end(
         &mut iter_stack,
         &mut res_stack,
@@ -172,8 +153,6 @@ where
 }
 
 /// Modify a dict with a sorted list of inserts/removes.
-// TODO: Better handle signed keys since their `Ord` implementation
-// has a different ordering than thair bit representation.
 pub fn aug_dict_modify_from_sorted_iter<K, A, V, T, I, FK, FV>(
     dict: &mut Option<Cell>,
     entries: I,
@@ -224,27 +203,15 @@ where
     let mut iter_stack = Vec::<IterStackItem>::new();
     let mut res_stack = Vec::<MergeStackItem<V, AugMergeStackItemMode<A>>>::new();
 
-    let mut prev_key = None::<K>;
-    for item in entries {
-        let is_first = prev_key.is_none();
-        let key = extract_key(&item);
-        if let Some(prev_key) = &prev_key {
-            match key.cmp(prev_key) {
-                // Skip duplicates
-                std::cmp::Ordering::Equal => continue,
-                // Allow only sorted entries
-                std::cmp::Ordering::Greater => {}
-                // Invalid data. TODO: Panic here?
-                std::cmp::Ordering::Less => return Err(Error::InvalidData),
-            }
-        }
-
-        // Build key.
-        let mut key_builder = CellDataBuilder::new();
-        ok!(key.store_into_data(&mut key_builder));
-        debug_assert_eq!(key_builder.size_bits(), K::BITS);
-        prev_key = Some(key);
+    let entries = ok!(collect_in_bit_order(entries, &mut extract_key));
+    if entries.is_empty() {
+        // Do nothing when the iterator was empty.
+        return Ok(false);
+    }
 
+    let mut is_first = true;
+    for (key_builder, item) in entries {
+        let is_first = std::mem::take(&mut is_first);
         let key = key_builder.as_data_slice();
 
         let value = ok!(extract_value(item));
@@ -322,11 +289,6 @@ where
         }
     }
 
-    if prev_key.is_none() {
-        // Do nothing when the iterator was empty.
-        return Ok(false);
-    }
-
     ok!(IterStackItem::seek_end(
         &mut iter_stack,
         &mut res_stack,
@@ -343,6 +305,50 @@ where
     Ok(true)
 }
 
+/// Collects sorted unique entries in the order of the bit representation of their keys.
+///
+/// It differs from the `Ord` implementation for signed keys.
+fn collect_in_bit_order<K, T, I, FK>(
+    entries: I,
+    extract_key: &mut FK,
+) -> Result<Vec<(CellDataBuilder, T)>, Error>
+where
+    I: IntoIterator<Item = T>,
+    K: StoreDictKey + Ord,
+    for<'a> FK: FnMut(&'a T) -> K,
+{
+    let mut result = Vec::new();
+
+    let mut prev_key = None::<K>;
+    for item in entries {
+        let key = extract_key(&item);
+        if let Some(prev_key) = &prev_key {
+            match key.cmp(prev_key) {
+                // Skip duplicates
+                std::cmp::Ordering::Equal => continue,
+                // Allow only sorted entries
+                std::cmp::Ordering::Greater => {}
+                // Invalid data. TODO: Panic here?
+                std::cmp::Ordering::Less => return Err(Error::InvalidData),
+            }
+        }
+
+        // Build key.
+        let mut key_builder = CellDataBuilder::new();
+        ok!(key.store_into_data(&mut key_builder));
+        debug_assert_eq!(key_builder.size_bits(), K::BITS);
+        prev_key = Some(key);
+
+        result.push((key_builder, item));
+    }
+
+    result.sort_by(|(left, _), (right, _)| {
+        let (left, right) = (left.as_data_slice(), right.as_data_slice());
+        left.lex_cmp(&right).unwrap_or(std::cmp::Ordering::Equal)
+    });
+    Ok(result)
+}
+
 struct IterStackItem {
     /// Key bits before this node.
     prefix: CellDataBuilder,
-- 
2.43.0


From 131a270372760c02b8bee22b660a11dcd784bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:53 +0000
Subject: [PATCH 59/62] fix: the state of a frozen account can be written as
 JSON

---
 src/models/account/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index f54ac9e..f9acb00 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -334,7 +334,29 @@ pub enum AccountState {
     /// Account exists and has been deployed.
     Active(StateInit),
     /// Account exists but has been frozen. Contains a hash of the last known [`StateInit`].
-    Frozen(HashBytes),
+    Frozen(#[cfg_attr(feature = "serde", serde(with = "serde_frozen_hash"))] HashBytes),
+}
+
+/// NOTE: A variant of an internally tagged enum can only contain a map.
+#[cfg(feature = "serde")]
+mod serde_frozen_hash {
+    use super::*;
+
+    #[derive(serde::Serialize, serde::Deserialize)]
+    struct Frozen {
+        hash: HashBytes,
+    }
+
+    pub fn serialize<S: serde::Serializer>(hash: &HashBytes, s: S) -> Result<S::Ok, S::Error> {
+        serde::Serialize::serialize(&Frozen { hash: *hash }, s)
+    }
+
+    pub fn deserialize<'de, D>(deserializer: D) -> Result<HashBytes, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        <Frozen as serde::Deserialize>::deserialize(deserializer).map(|frozen| frozen.hash)
+    }
 }
 
 impl AccountState {
-- 
2.43.0


From 22f5d620ce534ba0f9b0a963ad08d1776765827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:58 +0000
Subject: [PATCH 60/62] fix: JSON of a message with extra currencies can be
 read

---
 src/models/currency.rs | 62 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/models/currency.rs b/src/models/currency.rs
index b560314..130ef8d 100644
--- a/src/models/currency.rs
+++ b/src/models/currency.rs
@@ -178,11 +178,71 @@ impl<'a> arbitrary::Arbitrary<'a> for CurrencyCollection {
 
 /// Dictionary with amounts for multiple currencies.
 #[derive(Debug, Clone, Eq, PartialEq, Store, Load)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(serde::Serialize))]
 #[must_use]
 #[repr(transparent)]
 pub struct ExtraCurrencyCollection(Dict<u32, VarUint248>);
 
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for ExtraCurrencyCollection {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        use serde::de::{Error, Unexpected, Visitor};
+
+        // NOTE: Map keys are strings when this type is a part of an internally tagged enum.
+        #[derive(PartialEq, Eq, Hash)]
+        struct CurrencyId(u32);
+
+        impl<'de> serde::Deserialize<'de> for CurrencyId {
+            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            where
+                D: serde::Deserializer<'de>,
+            {
+                struct IdVisitor;
+
+                impl Visitor<'_> for IdVisitor {
+                    type Value = CurrencyId;
+
+                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+                        f.write_str("a currency id")
+                    }
+
+                    fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
+                        match u32::try_from(v) {
+                            Ok(id) => Ok(CurrencyId(id)),
+                            Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                        }
+                    }
+
+                    fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+                        match v.parse::<u32>() {
+                            Ok(id) => Ok(CurrencyId(id)),
+                            Err(_) => Err(E::invalid_value(Unexpected::Str(v), &self)),
+                        }
+                    }
+                }
+
+                deserializer.deserialize_any(IdVisitor)
+            }
+        }
+
+        if !deserializer.is_human_readable() {
+            return <_>::deserialize(deserializer).map(Self);
+        }
+
+        let map = ok!(ahash::HashMap::<CurrencyId, VarUint248>::deserialize(
+            deserializer
+        ));
+        let mut dict = Dict::new();
+        for (CurrencyId(id), amount) in map {
+            ok!(dict.set(id, amount).map_err(Error::custom));
+        }
+        Ok(Self(dict))
+    }
+}
+
 impl Default for ExtraCurrencyCollection {
     #[inline]
     fn default() -> Self {
-- 
2.43.0


From aa5e7936245f2d0214acabe18a52a64899cf9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:58 +0000
Subject: [PATCH 61/62] fix: the size hint of capabilities does not count
 unknown ones

---
 src/models/global_version.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/global_version.rs b/src/models/global_version.rs
index 7aa96e0..e3301ae 100644
--- a/src/models/global_version.rs
+++ b/src/models/global_version.rs
@@ -476,8 +476,8 @@ impl Iterator for GlobalCapabilitiesIter {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.0.count_ones() as usize;
-        (len, Some(len))
+        // NOTE: Unknown capabilities are skipped.
+        (0, Some(self.0.count_ones() as usize))
     }
 }
 
-- 
2.43.0


From a463863e6525cf36afb81444262fbf2f53afc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:02 +0000
Subject: [PATCH 62/62] fix: JSON of capabilities keeps the unknown ones

---
 src/models/global_version.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/models/global_version.rs b/src/models/global_version.rs
index e3301ae..fa575b3 100644
--- a/src/models/global_version.rs
+++ b/src/models/global_version.rs
@@ -398,8 +398,16 @@ impl serde::Serialize for GlobalCapabilities {
 
         if serializer.is_human_readable() {
             let mut seq = serializer.serialize_seq(Some(self.len()))?;
+            let mut unknown = self.0;
             for capability in self.iter() {
                 seq.serialize_element(&capability)?;
+                unknown &= !(capability as u64);
+            }
+            // NOTE: Capabilities without a name are written as masks.
+            while unknown != 0 {
+                let mask = unknown & unknown.wrapping_neg();
+                seq.serialize_element(&mask)?;
+                unknown &= !mask;
             }
             seq.end()
         } else {
@@ -416,6 +424,13 @@ impl<'de> serde::Deserialize<'de> for GlobalCapabilities {
     {
         use serde::de::Visitor;
 
+        #[derive(serde::Deserialize)]
+        #[serde(untagged)]
+        enum Item {
+            Known(GlobalCapability),
+            Unknown(u64),
+        }
+
         struct GlobalCapabilitiesVisitor;
 
         impl<'de> Visitor<'de> for GlobalCapabilitiesVisitor {
@@ -430,8 +445,11 @@ impl<'de> serde::Deserialize<'de> for GlobalCapabilities {
                 A: serde::de::SeqAccess<'de>,
             {
                 let mut res = GlobalCapabilities::default();
-                while let Some(capacility) = ok!(seq.next_element::<GlobalCapability>()) {
-                    res |= capacility;
+                while let Some(item) = ok!(seq.next_element::<Item>()) {
+                    match item {
+                        Item::Known(capability) => res |= capability,
+                        Item::Unknown(mask) => res |= mask,
+                    }
                 }
                 Ok(res)
             }
-- 
2.43.0

