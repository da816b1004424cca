From 72d5d5ef158f5ae94cf3e04fbd6efdd2aa9b62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:51 +0000
Subject: [PATCH 01/23] fix: compare and hash the last limb of bit vectors
 whose length is a multiple of 64

---
 src/bit_vec/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..433425b 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1605,8 +1605,8 @@ impl PartialEq for BitVec {
             }
         }
 
-        // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        // in last limb, ignore junk data (there is none if the last limb is full)
+        let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let masked_last_limb = self.data.last().unwrap()
+                & (u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE));
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From c9e7120afd31f96ff85eb4dc92b4a6f3a2de3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:51 +0000
Subject: [PATCH 02/23] fix: return all 64 bits of an unaligned 64-bit read
 from a masked bit vector

---
 src/bit_vec/mask.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..3d71fc7 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -137,7 +137,7 @@ where
     /// [`get_bits`]: MaskedBitVec::get_bits
     #[must_use]
     #[allow(clippy::inline_always)]
-    #[allow(clippy::comparison_chain)] // rust-clippy #5354
+    #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     #[inline]
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
@@ -146,17 +146,15 @@ where
             self.mask.data[pos / WORD_SIZE],
         ) >> (pos % WORD_SIZE);
 
-        if pos % WORD_SIZE + len == WORD_SIZE {
-            partial_word
-        } else if pos % WORD_SIZE + len < WORD_SIZE {
-            partial_word & ((1 << (len % WORD_SIZE)) - 1)
+        if pos % WORD_SIZE + len <= WORD_SIZE {
+            partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
         } else {
             let next_half = (self.bin_op)(
                 self.vec.data[pos / WORD_SIZE + 1],
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
         }
     }
 
-- 
2.43.0


From 0035e1344e2f785453a8b04e9bcf573a947615b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:51 +0000
Subject: [PATCH 03/23] fix: appending zero bits to a bit vector must not add a
 limb

---
 src/bit_vec/mod.rs    | 10 ++++++++++
 src/elias_fano/mod.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 433425b..df70c0a 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,11 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        // appending nothing must not allocate a limb
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +953,11 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        // appending nothing must not allocate a limb
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 0e0bd9a..f63317a 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -123,6 +123,11 @@ impl EliasFanoVec {
             lower_vec.append_bits_unchecked(lower, lower_width);
         }
 
+        // if elements have no lower bits, queries still read zero bits from the first limb
+        if lower_width == 0 {
+            lower_vec.append(false);
+        }
+
         Self {
             upper_vec: RsVec::from_bit_vec(upper_vec),
             lower_vec,
-- 
2.43.0


From 168e9c0d0f0f7a3269d0b5a7f68c12e6306af958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:51 +0000
Subject: [PATCH 04/23] fix: add the universe offset in last() and max() of
 Elias-Fano iterators

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 7c462170341dd42f8c59c55a2aa26a7721d59230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 05/23] fix: skipping all remaining elements of a select
 iterator from the back must not underflow

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From c1aa3de657d840c3499c6935289cd37303c09633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 06/23] fix: do not repeat or invent positions at the end of
 the vectorised bit set iterator

---
 src/bit_vec/fast_rs_vec/bitset.rs | 41 +++++++++----------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..6d1d040 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,16 +91,21 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk();
         }
 
         iter
     }
 
-    fn load_chunk(&mut self, data: u16) {
+    /// Load the chunk starting at `self.base`, which must be a valid index.
+    /// The last chunk of the vector may be incomplete.
+    fn load_chunk(&mut self) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
+        let chunk_len = VECTOR_SIZE.min(self.vec.len() - self.base);
+        let data = self.vec.get_bits_unchecked(self.base, chunk_len) as u16;
+
         unsafe {
             let offsets = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
             assert!(VECTOR_SIZE <= size_of::<u16>() * 8, "change data types");
@@ -108,6 +113,8 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             if ZERO {
                 mask = !mask;
             }
+            // ignore bits beyond the end of the vector
+            mask &= u16::MAX >> (VECTOR_SIZE - chunk_len);
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
             self.cursor = 0;
@@ -121,8 +128,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk();
         }
         Some(())
     }
@@ -132,30 +138,7 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
-        if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
-        }
+        self.load_next_chunk()?;
 
         let offset = self.offsets[self.cursor as usize];
         self.cursor += 1;
-- 
2.43.0


From 027172f6093b85cb511a007b5adfd205e02cdf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:38 +0000
Subject: [PATCH 07/23] fix: unchecked bit reads of sparse vectors left of the
 first 1-bit

---
 src/bit_vec/sparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..43635e1 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // if the predecessor is None, the bit is left of the first 1-bit
+        self.vec.predecessor(i).is_some_and(|p| p == i)
     }
 
     /// Returns true if the bit at position `i` is set.
@@ -160,8 +161,7 @@ impl SparseRSVec {
         if i >= self.len {
             None
         } else {
-            // if the predecessor is None, the bit is left of the first 1-bit
-            Some(self.vec.predecessor(i).is_some_and(|p| p == i))
+            Some(self.is_set_unchecked(i))
         }
     }
 
-- 
2.43.0


From f93373c3062e99ecaf1aab03d92e8171327bec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:38 +0000
Subject: [PATCH 08/23] fix: out-of-range multi-bit reads must not wrap around

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 +-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..1ac0307 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 3d71fc7..48ddc67 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.vec.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index df70c0a..db6f3e0 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1176,7 +1176,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1242,7 +1242,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From 0eb90405d32c7c841f1677daca0b2cbefa8ea914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:08 +0000
Subject: [PATCH 09/23] fix: reading zero bits at the end of a rank/select
 vector must not panic

---
 src/bit_vec/fast_rs_vec/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1ac0307..4ae6202 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -354,6 +354,9 @@ impl RsVec {
         }
         if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
+        } else if len == 0 {
+            // there might be no limb to read from if `pos` is the end of the vector
+            Some(0)
         } else {
             Some(self.get_bits_unchecked(pos, len))
         }
-- 
2.43.0


From 5cf225da587c7563499930c39431c943a1c128fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 10/23] fix: nth and nth_back past the end consume the
 remaining elements

---
 src/util/elias_fano_iter.rs | 14 +++++++++++---
 src/util/general_iter.rs    | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..8554a5b 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,7 +12,7 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -113,7 +113,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping past the end consumes all remaining elements
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +171,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping past the end consumes all remaining elements
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..6c0a152 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,7 +32,7 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -118,7 +118,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping past the end consumes all remaining elements
+                    self.index += self.len();
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +152,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping past the end consumes all remaining elements
+                    self.index += self.len();
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From 6c948492b53fb65146810c99a80da1de0ebe3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:15 +0000
Subject: [PATCH 11/23] fix: forward search in an empty tree must not underflow

---
 src/trees/bp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..554faf9 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
-- 
2.43.0


From a33da93e17c6d928636a4dbc8de20864d5c86594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:15 +0000
Subject: [PATCH 12/23] fix: backward search with block sizes that are not a
 multiple of the lookup block size

---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 554faf9..241fc0a 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.div_ceil(LOOKUP_BLOCK_SIZE as usize) * LOOKUP_BLOCK_SIZE as usize,
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the lower_lookup_boundary isn't the block_boundary (which happens if the block size isn't a multiple
+        // of the lookup block size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 53f021dbe002c60d2d03767bfd456b2ae1a2b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:15 +0000
Subject: [PATCH 13/23] fix: excess beyond the end returns the total excess as
 documented

---
 src/trees/bp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 241fc0a..52939e5 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -397,8 +397,8 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     /// If `index` is out of bounds, the total excess of the parentheses expression is returned.
     #[must_use]
     pub fn excess(&self, index: usize) -> i64 {
-        debug_assert!(index < self.vec.len(), "Index out of bounds");
-        self.vec.rank1(index + 1) as i64 - self.vec.rank0(index + 1) as i64
+        let end = index.saturating_add(1);
+        self.vec.rank1(end) as i64 - self.vec.rank0(end) as i64
     }
 
     /// Iterate over the nodes of the tree.
-- 
2.43.0


From e5a167a7352ca5bd8efb8f34a73bdd1c308fdddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:15 +0000
Subject: [PATCH 14/23] fix: outermost nodes of a level in empty and
 single-node trees

---
 src/trees/bp/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 52939e5..0aff6c3 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -723,7 +723,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -732,9 +732,14 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // the root does not need to have a descendant to be found by the search
+        if level == 0 {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
     }
 }
 
-- 
2.43.0


From 05a8fecf3609787917100821888d943b24a305dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:03 +0000
Subject: [PATCH 15/23] fix: reversed ranges in wavelet matrix queries must not
 underflow

---
 src/wavelet/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..682faf0 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -456,7 +456,8 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
-        if range.start >= self.len()
+        if range.start > range.end
+            || range.start >= self.len()
             || range.end > self.len()
             || symbol.len() != self.bits_per_element()
         {
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start > range.end
+            || range.start >= self.len()
+            || range.end > self.len()
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1240,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From ab26c826d87495765dbfcc56ccf82d6766fd97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:03 +0000
Subject: [PATCH 16/23] fix: very large ranks in wavelet matrix select must not
 overflow

---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 682faf0..577a921 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -791,7 +791,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -871,7 +871,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From 159802f9ca098135447c5850e26a24d0e3c44a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 17/23] fix: heap size of wavelet matrices includes the array
 of levels

---
 src/wavelet/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 577a921..72a9a6b 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -2063,7 +2063,8 @@ impl WaveletMatrix {
     /// internal data structures.
     #[must_use]
     pub fn heap_size(&self) -> usize {
-        self.data.iter().map(RsVec::heap_size).sum::<usize>()
+        self.data.len() * mem::size_of::<RsVec>()
+            + self.data.iter().map(RsVec::heap_size).sum::<usize>()
     }
 }
 
-- 
2.43.0


From 81112d52b6c2dd154695f2a7481b066633e41825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:33 +0000
Subject: [PATCH 18/23] fix: select of ranks in the last select block searches
 super-blocks by bisection

---
 src/bit_vec/fast_rs_vec/mod.rs    | 19 ++++++++-----------
 src/bit_vec/fast_rs_vec/select.rs |  2 +-
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 4ae6202..de6c88e 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -190,30 +190,27 @@ impl RsVec {
             current_zeros += new_zeros;
         }
 
-        // insert dummy select blocks at the end that just report the same index like the last real
-        // block, so the bound check for binary search doesn't overflow
-        // this is technically the incorrect value, but since all valid queries will be smaller,
-        // this will only tell select to stay in the current super block, which is correct.
-        // we cannot use a real value here, because this would change the size of the super-block
+        // insert dummy select blocks at the end that report the last super-block, so the bound check
+        // for binary search doesn't overflow and the search for ranks in the last (incomplete) select
+        // block covers all remaining super-blocks.
+        let last_super_block = super_blocks.len().saturating_sub(1);
         if last_zero_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
-                index_0: select_blocks[last_zero_select_block].index_0,
+                index_0: last_super_block,
                 index_1: 0,
             });
         } else {
             debug_assert!(select_blocks[last_zero_select_block + 1].index_0 == 0);
-            select_blocks[last_zero_select_block + 1].index_0 =
-                select_blocks[last_zero_select_block].index_0;
+            select_blocks[last_zero_select_block + 1].index_0 = last_super_block;
         }
         if last_one_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
                 index_0: 0,
-                index_1: select_blocks[last_one_select_block].index_1,
+                index_1: last_super_block,
             });
         } else {
             debug_assert!(select_blocks[last_one_select_block + 1].index_1 == 0);
-            select_blocks[last_one_select_block + 1].index_1 =
-                select_blocks[last_one_select_block].index_1;
+            select_blocks[last_one_select_block + 1].index_1 = last_super_block;
         }
 
         total_zeros += current_zeros;
diff --git a/src/bit_vec/fast_rs_vec/select.rs b/src/bit_vec/fast_rs_vec/select.rs
index b8721d7..24d3310 100644
--- a/src/bit_vec/fast_rs_vec/select.rs
+++ b/src/bit_vec/fast_rs_vec/select.rs
@@ -391,7 +391,7 @@ impl super::RsVec {
         while upper_bound - super_block > 8 {
             let middle = super_block + ((upper_bound - super_block) >> 1);
             // using select_unpredictable does nothing here, likely because the search isn't hot
-            if ((middle + 1) * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
+            if (middle * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
                 super_block = middle;
             } else {
                 upper_bound = middle;
-- 
2.43.0


From 1c8d1a5b38acf78f9c8bd2c8fcb453f70dbf978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:50 +0000
Subject: [PATCH 19/23] fix: Elias-Fano rank of a frequent element bisects
 instead of walking over its copies

---
 src/elias_fano/mod.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index f63317a..148cc73 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -333,27 +333,18 @@ impl EliasFanoVec {
                                 .lower_vec
                                 .get_bits_unchecked(middle * self.lower_len, self.lower_len);
 
-                            if middle_candidate > query_lower {
+                            // when searching for an index, equal elements are not part of the result,
+                            // so the search continues towards the first of them
+                            if middle_candidate > query_lower
+                                || (INDEX && middle_candidate == query_lower)
+                            {
                                 if !UPWARD {
                                     lower_candidate = middle_candidate;
                                 }
                                 upper_bound = middle;
                             } else if middle_candidate == query_lower {
-                                return if INDEX {
-                                    cursor = middle as isize;
-                                    // while the element at cursor - 1 is equal, reduce cursor
-                                    while self.lower_vec.get_bits_unchecked(
-                                        (cursor - direction) as usize * self.lower_len,
-                                        self.lower_len,
-                                    ) == query_lower
-                                    {
-                                        cursor -= direction;
-                                    }
-                                    // the element at cursor - 1 is smaller than the query, so we return cursor - 1 + 1
-                                    cursor as u64
-                                } else {
-                                    (query_masked_upper | middle_candidate) + self.universe_zero
-                                };
+                                return (query_masked_upper | middle_candidate)
+                                    + self.universe_zero;
                             } else {
                                 if UPWARD {
                                     lower_candidate = middle_candidate;
-- 
2.43.0


From 3a52893ab4c1849e205b9c7c187624dde7f89a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:56 +0000
Subject: [PATCH 20/23] fix: EliasFanoVec::get_unchecked panics on every index
 out of bounds

The documentation promises a panic, but release builds returned garbage for
indices that stay inside the last limb, wrap around, or when elements have no
lower bits.
---
 src/elias_fano/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 148cc73..5a2d87b 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -187,6 +187,8 @@ impl EliasFanoVec {
     #[must_use]
     #[allow(clippy::cast_possible_truncation)]
     pub fn get_unchecked(&self, index: usize) -> u64 {
+        assert!(index < self.len(), "Index out of bounds");
+
         let upper = self.upper_vec.select1(index) - index - 1;
         let lower = self
             .lower_vec
-- 
2.43.0


From 6d89ebf338b28af40fda53f29b2390c3802f3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:18 +0000
Subject: [PATCH 21/23] fix: parenthesis search with an extreme relative excess
 overflows

---
 src/trees/bp/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 0aff6c3..5aa11cf 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -167,6 +167,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // the excess cannot change by more than the number of parentheses
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         let block_index = (index + 1) / BLOCK_SIZE;
         self.fwd_search_block(index, block_index, &mut relative_excess)
             .map_or_else(
@@ -264,6 +269,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // the excess cannot change by more than the number of parentheses
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         // calculate the block we start searching in. It starts at index - 1, so we don't accidentally
         // search the mM tree and immediately find `index` as the position
         let block_index = (index - 1) / BLOCK_SIZE;
-- 
2.43.0


From fc75b17a379865fbcb892359845a094fcf1a8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 22/23] fix: level queries at levels beyond 2^63 wrap around

---
 src/trees/bp/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 5aa11cf..66f8831 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -717,9 +717,9 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return Some(node);
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.bwd_search(node, -(level as i64))
+        // there are no levels beyond the range of excess values
+        let level = i64::try_from(level).ok()?;
+        self.bwd_search(node, -level)
     }
 
     fn level_next(&self, node: Self::NodeHandle) -> Option<Self::NodeHandle> {
@@ -736,9 +736,9 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return self.root();
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.fwd_search(0, level as i64)
+        // there are no levels beyond the range of excess values
+        let level = i64::try_from(level).ok()?;
+        self.fwd_search(0, level)
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
@@ -747,9 +747,9 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return self.root();
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
+        // there are no levels beyond the range of excess values
+        let level = i64::try_from(level).ok()?;
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level)?)
     }
 }
 
-- 
2.43.0


From 7f22c6d8b458b119345a9ad81f8a168e98e9c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:04 +0000
Subject: [PATCH 23/23] fix: truncating order statistics of elements wider than
 64 bits panic with debug assertions

---
 src/wavelet/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 72a9a6b..a4d88cd 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -1192,7 +1192,6 @@ impl WaveletMatrix {
         start_level: usize,
         mut prefix: u64,
     ) -> u64 {
-        debug_assert!(self.bits_per_element() <= 64);
         debug_assert!(!range.is_empty());
         debug_assert!(range.end <= self.len());
 
-- 
2.43.0

