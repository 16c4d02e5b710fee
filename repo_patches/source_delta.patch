From 5be2378b374de9186039fcc27773cdb3c1eb5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 01/22] fix: BloomFilter::from_fpp rounds the item count down
 so that it meets its fpp

The unary minus applied to the floored value, so the item count was rounded
up and too few hash functions were derived for small bit counts.
---
 src/bloom/bloom_filter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bloom/bloom_filter.rs b/src/bloom/bloom_filter.rs
index 066ff85..e6410f4 100644
--- a/src/bloom/bloom_filter.rs
+++ b/src/bloom/bloom_filter.rs
@@ -187,7 +187,9 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hashers(bit_count: usize, fpp: f64, hash_builders: [B; 2]) -> Self {
-        let item_count = -(2f64.ln() * (bit_count as f64) / fpp.log2()).floor() as usize;
+        let item_count = (-2f64.ln() * (bit_count as f64) / fpp.log2())
+            .floor()
+            .max(1.0) as usize;
         BloomFilter {
             bit_vec: BitVec::new(bit_count),
             hasher: DoubleHasher::with_hashers(hash_builders),
-- 
2.43.0


From dd899d5e33bdd30d323dea628745349302b29292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 02/22] fix: CuckooFilter::is_empty takes the overflow list
 into account

A filter whose remaining items all sit in the overflow list reported itself empty.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..23d707c 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -633,7 +633,7 @@ where
     /// assert!(filter.is_empty());
     /// ```
     pub fn is_empty(&self) -> bool {
-        self.len() == 0
+        self.len() == 0 && self.extra_items.is_empty()
     }
 
     /// Returns the maximum capacity of the cuckoo filter. Items stay spill into the extra items
-- 
2.43.0


From 48d6dada55137f998d3a4f6d1a565000613f74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 03/22] fix: CuckooFilter::capacity returns the number of slots

It returned the number of fingerprints that fit into the allocated words, which
exceeds the number of slots whenever these do not fill a whole word; growth of
ScalableCuckooFilter and estimated_fpp were computed from it.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 23d707c..f03410c 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From d08f50efb3827cab6597fc22aba7a4aa9782bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 04/22] fix: derive cuckoo fingerprint sizes for very small fpp

1 - (1 - fpp)^x loses all precision for fpp around 1e-16 and below, giving an
infinite fingerprint size and a panic; ScalableCuckooFilter gets there after
enough growths. Fingerprints are at most 64 bits wide.
---
 src/cuckoo/cuckoo_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index f03410c..74c04e9 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -320,8 +320,8 @@ where
     ) -> Self {
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
-        let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
-        let fingerprint_bit_count = power.log2().ceil() as usize;
+        let power = -2.0 / ((-fpp).ln_1p() / (2.0 * entries_per_index as f64)).exp_m1();
+        let fingerprint_bit_count = cmp::min(power.log2().ceil() as usize, 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From 5429c576397b58ba00fb38f71feecf6aa12080ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 05/22] fix: ScalableCuckooFilter::remove erases one entry only

It removed matching fingerprints from every filter, and so could delete another
item of a later filter that shares the fingerprint there.
---
 src/cuckoo/scalable_cuckoo_filter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo/scalable_cuckoo_filter.rs b/src/cuckoo/scalable_cuckoo_filter.rs
index bd50222..058a9b7 100644
--- a/src/cuckoo/scalable_cuckoo_filter.rs
+++ b/src/cuckoo/scalable_cuckoo_filter.rs
@@ -306,7 +306,11 @@ where
         T: Borrow<U>,
         U: Hash + ?Sized,
     {
-        for filter in &mut self.filters {
+        if let Some(filter) = self
+            .filters
+            .iter_mut()
+            .find(|filter| filter.contains(item))
+        {
             filter.remove(item);
         }
     }
-- 
2.43.0


From 2a207f13b8a6cd389f810f3d2e8d7fea3e3d9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 06/22] fix: from_fingerprint_bit_count with wide fingerprints

From 54 bits on the probability of a single match rounded to 1 and the
constructor panicked as if the fpp were impossible to achieve; below that it
could derive buckets of billions of entries for a handful of items.
---
 src/cuckoo/cuckoo_filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 74c04e9..df1b996 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -372,8 +372,10 @@ where
         assert!(item_count > 0);
         assert!(fingerprint_bit_count > 1 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
-        let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
-        let entries_per_index = ((1.0 - fpp).log(single_fpp) / 2.0).floor() as usize;
+        let single_fpp = 1.0 / (fingerprints_count - 1.0);
+        let entries_per_index = ((-fpp).ln_1p() / (-single_fpp).ln_1p() / 2.0).floor() as usize;
+        // a bucket never needs more entries than there are items
+        let entries_per_index = cmp::min(entries_per_index, item_count);
         assert!(entries_per_index > 0);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
-- 
2.43.0


From 656317dd4af498ca4794911ab7b7a556b0705c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 07/22] fix: CuckooFilter accepts one bit fingerprints as
 documented

---
 src/cuckoo/cuckoo_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index df1b996..5b0c1f7 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -268,7 +268,7 @@ where
     ) -> Self {
         assert!(
             item_count > 0
-                && fingerprint_bit_count > 1
+                && fingerprint_bit_count > 0
                 && fingerprint_bit_count <= 64
                 && entries_per_index > 0
         );
@@ -370,7 +370,7 @@ where
         hash_builders: [B; 2],
     ) -> Self {
         assert!(item_count > 0);
-        assert!(fingerprint_bit_count > 1 && fingerprint_bit_count <= 64);
+        assert!(fingerprint_bit_count > 0 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
         let single_fpp = 1.0 / (fingerprints_count - 1.0);
         let entries_per_index = ((-fpp).ln_1p() / (-single_fpp).ln_1p() / 2.0).floor() as usize;
-- 
2.43.0


From 1b42a168541b535b103944f7cbf1c87eec72121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 08/22] fix: QuotientFilter::remove of an absent item without a
 run

When the canonical slot holds an item shifted there but is not occupied itself,
the run of another quotient was searched and its item with the same remainder
deleted.
---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..e9a9645 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From aefd63553af32a0c05d3da3752254564ccae3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 09/22] fix: QuotientFilter::remove of the only item of a
 shifted run

The occupied bit of the canonical slot was left behind when the run was the
last one of its cluster, so the removed item (or another one with the same
remainder) was still reported and later operations worked on corrupt runs.
---
 src/quotient.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index e9a9645..8855c60 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -481,6 +481,12 @@ where
         self.increment_index(&mut next_index);
         let mut next_slot = self.slot_vec.get(next_index);
 
+        // the run disappears with its only item, so its canonical slot is not occupied anymore
+        if is_run_start && next_slot & CONTINUATION_MASK == 0 {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         // continue until it is not shifted and not a continuation: the only cases are if it is an
         // item in its canonical position, or if the slot is empty
         while next_slot & CONTINUATION_MASK != 0 || next_slot & SHIFTED_MASK != 0 {
@@ -489,11 +495,6 @@ where
             // update number of runs since the entire run gets shifted to left
             if next_slot & CONTINUATION_MASK == 0 {
                 runs_count += 1;
-                // next slot is a new run, so we can delete occupied bit of canonical position
-                if is_run_start {
-                    let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
-                    self.slot_vec.set(quotient, canonical_slot);
-                }
             }
             // if first item is a start of a run, the next item must be a start of a run. The
             // next item is either already a start of a run or the new start of the removed
-- 
2.43.0


From 7eb72f517588665f3f3fc0111fd49e4be209bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 10/22] fix: check the sum of quotient and remainder bits
 without overflow

Without overflow checks 200 + 100 bits were accepted.
---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 8855c60..5ee3e69 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -230,7 +230,7 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u32::from(quotient_bits) + u32::from(remainder_bits) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
         QuotientFilter {
-- 
2.43.0


From fbbccf292d72e493f338941bc130e558e198862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 11/22] fix: QuotientFilter allocates one slot per quotient

The slot vector was created with slot_bits elements per quotient, that is
slot_bits times the memory needed.
---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 5ee3e69..fbf514b 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -232,7 +232,7 @@ where
         assert!(remainder_bits > 0);
         assert!(u32::from(quotient_bits) + u32::from(remainder_bits) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
-        let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
+        let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
             quotient_bits,
             remainder_bits,
-- 
2.43.0


From 1ae30acd4ef696f13710926a77f7023066064ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 12/22] fix: QuotientFilter::from_fpp meets the requested
 probability

The remainder size assumed a half full filter although the filter is sized for
75% fullness, so the probability was exceeded by up to a half; probabilities
below 1e-16 or close to 1 panicked. Probabilities outside (0, 1) panic as
documented.
---
 src/quotient.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index fbf514b..642b12d 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -6,7 +6,7 @@ use crate::SipHasherBuilder;
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
 use std::borrow::Borrow;
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::f64::consts;
 use std::hash::{BuildHasher, Hash};
 use std::marker::PhantomData;
@@ -267,8 +267,13 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(fpp > 0.0 && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // smallest remainder that meets the probability at the highest load, 1 / 1.33
+        let remainder_bits = (1.0 / -1.33 / (-fpp).ln_1p()).log2().ceil().max(1.0);
+        // remainders cannot use more bits than a slot or a 64-bit hash have left
+        let max_remainder_bits = 64 - cmp::max(quotient_bits, METADATA_BITS);
+        let remainder_bits = remainder_bits.min(f64::from(max_remainder_bits)) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 099ce1c269f08bb3a94eb0a86ad38e6ecb22292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 13/22] fix: HyperLogLog derives its register count with a base
 2 logarithm

m registers give a relative error of 1.04 / sqrt(m), so m is at least
(1.04 / e)^2 and p is the base 2 logarithm of that. The limit on p is
raised so that every error probability accepted before is still accepted.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..cb5535a 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,7 +77,7 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
+        assert!((..=24).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From 431b187332b46aba57b3475c438b5496d81b2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 14/22] fix: HyperLogLog estimates beyond linear counting

The raw estimate is alpha * m^2 / sum(2^-register), not its inverse
scaled by m^4; being tiny, it always selected linear counting, which is
infinite once no register is zero.
---
 src/hyperloglog.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index cb5535a..04a59cc 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -209,7 +207,11 @@ where
                     .iter()
                     .map(|value| u64::from(*value == 0))
                     .sum::<u64>();
-                len * (len / zeros as f64).ln()
+                if zeros == 0 {
+                    x
+                } else {
+                    len * (len / zeros as f64).ln()
+                }
             }
             x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
             x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
-- 
2.43.0


From 44036e3c8c2f912bc59b597f0c7710144f222941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 15/22] fix: HyperLogLog has no large range correction for
 64-bit hashes

The correction is for collisions of 32-bit hashes; with 64-bit hashes it
made estimates above 2^32 / 3 wrong and those above 2^32 not a number.
---
 src/hyperloglog.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 04a59cc..55a26a7 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -20,7 +20,7 @@ use std::marker::PhantomData;
 /// distributed items can be estimated by calculating the maximum number of leading zeros in the
 /// hash of each item in the multiset. It also buckets each item in a register and takes the
 /// harmonic mean of the count in order to reduce the variance. Finally, it uses linear counting
-/// for small cardinalities and small correction for large cardinalities.
+/// for small cardinalities. Hashes have 64 bits, so large cardinalities need no correction.
 ///
 /// # Examples
 ///
@@ -213,8 +213,7 @@ where
                     len * (len / zeros as f64).ln()
                 }
             }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            x => x,
         }
     }
 
-- 
2.43.0


From 3abc80f22c416b40b9ad32a0aa0f860ba6119877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 16/22] fix: ShingleIterator with fewer tokens than the token
 count

The subtraction underflowed: a panic in debug builds, an out of range
slice in release builds. Such a list has no shingles.
---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From 670e8d58c7c9dac8b4e7105f5d69ce865c2310f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 17/22] fix: SimHash::report_similarities with fewer items than
 the window

The subtraction underflowed: a panic in debug builds, an out of range
index in release builds.
---
 src/similarity/sim_hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..8981d58 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -161,6 +161,8 @@ where
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
 
+        // fewer items than the window are all within one window
+        let window_size = cmp::min(window_size, sim_hashes.len());
         let mut similarities = HashSet::new();
 
         for _ in 0..64 {
-- 
2.43.0


From c577cbd5cbaabce75e0a2e3f06743026bef1d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 18/22] verif hook: re-export the packed arrays under
 cfg(pcrs_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..2f4f622 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,5 +103,12 @@ pub mod quotient;
 pub mod similarity;
 mod util;
 
+#[cfg(pcrs_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::bit_vec::BitVec;
+    pub use crate::bitstring_vec::BitstringVec;
+}
+
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
-- 
2.43.0


From f57e598c3ae2bc710f92554fee13a2a777e6b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 19/22] fix: BitVec::flip_all leaves the bits beyond the end
 clear

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..5285a54 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 5a0ed63fc87e9816170e8efadb75e58ce3b5effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 20/22] fix: BitVec::truncate updates the number of ones

---
 src/bit_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 5285a54..5daaf30 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -200,6 +200,11 @@ impl BitVec {
             self.len = len;
             self.blocks.truncate(Self::get_block_count(len));
             self.clear_extra_bits();
+            self.one_count = self
+                .blocks
+                .iter()
+                .map(|block| block.count_ones() as usize)
+                .sum();
         }
     }
 
-- 
2.43.0


From fc6a1929724f59d83413cfac038e53f71dedd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 21/22] fix: BitVec::clone_from copies the number of ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 5daaf30..32a08c5 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -297,6 +297,7 @@ impl Clone for BitVec {
 
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
+        self.one_count = source.one_count;
         self.blocks.clone_from(&source.blocks);
     }
 }
-- 
2.43.0


From 7b801da2b22dc4111160d480a8e228d7635c8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 22/22] fix: BitstringVec::pop clears the popped bits

---
 src/bitstring_vec.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..72b7032 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -142,14 +142,12 @@ impl BitstringVec {
 
     pub fn pop(&mut self) -> u64 {
         assert!(!self.is_empty());
-        let ret = self.get(self.len - 1);
         let len = self.len;
+        let ret = self.get(len - 1);
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0

