From e6c94f1ba0de457dbf6ce99e5c6038ff044cdde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 01/16] fix: make unset_nth_bit clear the bit and return its
 old value

The mask was built from the value to store, so unsetting a bit OR-ed zero
into the set: the bit stayed set and the call always returned true.
---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 584b46a7c44b4fe0eb08b6c561a65f2eab9a91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 02/16] fix: clear the index cache when a v2 filter is cleared

Filters created with the speed or best optimization kept their index cache
across clear(). Lookups then behaved as if old entries were still there, and
a cleared filter did not serialize like a new one.
---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..2f387bc 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -350,6 +350,7 @@ impl BloomFilter {
     /// Clears out the bloom filter
     #[inline(always)]
     pub fn clear(&mut self) {
+        self.index_cache.clear();
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
         self.count = 0;
     }
-- 
2.43.0


From 3aa3a6a31d3e77c663430e2c4e47555c9dbe926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 03/16] fix: treat a filter above its capacity as full

A union can bring the estimated count above the capacity. The v2 insert test
and is_full() compared for equality, so such a filter was reported as not
full and v2 accepted new entries without limit.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b5c74cb 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -366,7 +366,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 2f387bc..a20f3d0 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -387,7 +387,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -549,7 +549,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From 34074dba1dd7c26155b634db22060d6929602e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 04/16] fix: report errors raised while flushing a serialized
 filter

write() left the last buffered bytes to be flushed when the BufWriter is
dropped, where errors are ignored. A full disk could therefore lose the end
of a filter (all of a small one) while write() returned Ok.
---
 poppy/src/bloom/v1.rs | 1 +
 poppy/src/bloom/v2.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b5c74cb..4659eb7 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,7 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index a20f3d0..b414e35 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,7 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 43fb507307081318414a4306e372d83e532edcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 05/16] fix: compute the size of a v1 filter from its number of
 u64 blocks

size_in_u64() returned the number of bits, which made size_in_bytes() and
`poppy show` report 64 times the real size.
---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 4659eb7..4ca0cea 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -344,7 +344,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        f64::ceil(self.bit_size as f64 / 64.0) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 9efc7c665b5ac62905ca93a27f0c4a998242ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 06/16] fix: give a v1 filter at least one bit

With a false positive probability of 1.0, or a tiny capacity and a high
probability, the computed size was zero bits. Inserting succeeded but stored
nothing, so lookups of inserted values returned false.
---
 poppy/src/bloom/v1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 4ca0cea..5f1597a 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -107,7 +107,11 @@ impl BloomFilter {
         }
 
         // size in bits, computed from the capacity we want and the probability
-        let bit_size = utils::bit_size(cap, fpp);
+        let mut bit_size = utils::bit_size(cap, fpp);
+        if cap > 0 && bit_size == 0 {
+            // a filter without bits would silently drop everything inserted
+            bit_size = 1;
+        }
 
         // size in u64
         let u64_size = f64::ceil(bit_size as f64 / 64.0) as usize;
-- 
2.43.0


From bc8274b1ff85e6486517250bb84f3f8429d4a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 07/16] fix: use at least one hash per bucket in optimized v2
 filters

With the speed or best optimization and a probability above about 0.79 the
number of hashes was rounded to zero. Inserts were then never counted, so the
capacity was never enforced and the estimated count stayed at zero.
---
 poppy/src/bloom/v2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index b414e35..c79629e 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -312,6 +312,11 @@ impl BloomFilter {
             }
         }
 
+        if capacity > 0 {
+            // without a bucket hash entries would not be counted
+            n_hash_buck = n_hash_buck.max(1);
+        }
+
         let index_cache = VecBitSet::with_bit_capacity(cache_bit_size as usize);
         let cache_bit_size = index_cache.byte_len() as u64;
 
-- 
2.43.0


From 3f7fb993036827086e017f7ca555befc4af402f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 08/16] fix: do not overflow when estimating the count of
 saturated buckets

The estimate of a bucket with all bits set is infinite and becomes the largest
integer. Summing two of them panicked in debug builds and wrapped in release
builds during unions, intersections and count_common_entries.
---
 poppy/src/bloom/v2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index c79629e..088f389 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -575,7 +575,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b1.count_ones_in_common(b2) as f64 / b1.bit_len() as f64)))
                     / self.n_hash_buck as f64) as usize
             })
-            .sum())
+            .fold(0, usize::saturating_add))
     }
 
     #[inline]
@@ -590,7 +590,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b.count_ones() as f64 / b.bit_len() as f64)))
                     / self.n_hash_buck as f64) as u64
             })
-            .sum();
+            .fold(0, u64::saturating_add);
     }
 
     /// returns an estimate of the number of element in the filter
-- 
2.43.0


From 34c8d8445c6a04ad54abede6614a71905e7a6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 09/16] fix: do not panic on filters loaded without storage

A file can declare a capacity but no bits (v1) or no buckets (v2), and a
partial load has none either. Inserting or looking up a value in such a filter
divided by zero or indexed out of bounds. It now contains nothing and refuses
inserts.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 5f1597a..7a8a50f 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -259,7 +259,7 @@ impl BloomFilter {
     pub fn insert_bytes<S: AsRef<[u8]>>(&mut self, value: S) -> Result<bool, Error> {
         let mut new = false;
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.bitset.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 088f389..f8e3444 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -373,7 +373,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
@@ -464,7 +464,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Ok(false);
         }
 
-- 
2.43.0


From 7a84044cb5aa0e0739590ae717c7198d46f9ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 10/16] fix: support -j 0 in the check command

The documented `poppy -j 0 check filter files...` divided by zero.
---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..4ea9a8f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,7 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let batches = files.chunks(max(files.len() / optimal_jobs(args.jobs), 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From dcc4bfcc2f9b9bd251191b7dbfba837ab6a1da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:11 +0000
Subject: [PATCH 11/16] fix: do not overflow in ByteSize::from_mb

`poppy bench --size-mb 0` asks for usize::MAX megabytes, which panicked in
debug builds and wrapped in release builds.
---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0


From 9b0f2a73650a409344c785d880ee37409f2453d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:31 +0000
Subject: [PATCH 12/16] fix: return an error when a filter file announces
 impossible sizes

Loading a malformed file allocated whatever size its header asked for before
reading anything. A wrong header ended in a capacity overflow panic or in an
allocation failure that aborts the process, while from_reader() documents that
malformed data is reported as an error. The partial load also overflowed when
computing the size to skip.
---
 poppy/src/bitset/vec.rs | 15 +++++++++++++++
 poppy/src/bloom/v1.rs   |  9 +++++----
 poppy/src/bloom/v2.rs   | 19 ++++++++++++-------
 poppy/src/utils.rs      |  7 +++++++
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index 9471b84..0c6b280 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -1,3 +1,7 @@
+use std::io::{self, Read};
+
+use crate::utils::reserve;
+
 #[derive(Debug, Clone)]
 pub struct VecBitSet(Vec<u8>);
 
@@ -13,6 +17,17 @@ impl VecBitSet {
         Self(vec![0; byte_size])
     }
 
+    /// Reads a bitset of `byte_len` bytes
+    pub(crate) fn from_reader<R: Read>(r: &mut R, byte_len: usize) -> Result<Self, io::Error> {
+        let mut bytes = vec![];
+        reserve(&mut bytes, byte_len)?;
+        r.take(byte_len as u64).read_to_end(&mut bytes)?;
+        if bytes.len() != byte_len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(Self(bytes))
+    }
+
     /// Returns true if bitset is empty
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 7a8a50f..0ff1779 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -6,7 +6,7 @@ use std::{
 use crate::{
     hash::fnv::Fnv1Hasher,
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{read_le_f64, read_le_u64, reserve},
     Flags, Params,
 };
 
@@ -185,10 +185,11 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                let mut bitset = vec![];
+                reserve(&mut bitset, u64_size as usize)?;
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index f8e3444..ce44c06 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     hash::{digest, wyhash::WyHasher, PoppyHash, PoppyHasher},
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{read_le_f64, read_le_u64, reserve},
     Flags, OptLevel, Params,
 };
 use core::mem::size_of;
@@ -208,9 +208,7 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                VecBitSet::from_reader(r, cache_byte_size as usize)?
             }
         };
 
@@ -219,13 +217,20 @@ impl BloomFilter {
 
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let offset = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|n| i64::try_from(n).ok())
+                    .ok_or(io::Error::from(io::ErrorKind::InvalidData))?;
+                r.seek_relative(offset)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                let mut buckets = vec![];
+                reserve(&mut buckets, n_buckets)?;
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 40d1c99..fb3afe0 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -18,6 +18,13 @@ pub(crate) fn read_le_f64<R: Read>(r: &mut R) -> Result<f64, io::Error> {
     Ok(f64::from_le_bytes(bytes))
 }
 
+/// Reserves memory for `n` elements announced by untrusted data, so
+/// that a wrong size is an error and not an abort
+pub(crate) fn reserve<T>(v: &mut Vec<T>, n: usize) -> Result<(), io::Error> {
+    v.try_reserve_exact(n)
+        .map_err(|e| io::Error::new(io::ErrorKind::OutOfMemory, e))
+}
+
 pub enum ByteSize {
     Bytes(usize),
     Kilo(usize),
-- 
2.43.0


From 567bf9838482233f3d47d755cada4ebf56e2e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 13/16] fix: count v2 entries that are new to the index cache
 only

With the speed or best optimization a value is absent when its index cache bit
is unset, even if all its bucket bits are set. Inserting such a value returned
false, was not counted, and was accepted by a full filter although it changed
what the filter contains.
---
 poppy/src/bloom/v2.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index ce44c06..d4afc2b 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -400,6 +400,18 @@ impl BloomFilter {
 
         let reached_cap = self.count >= self.capacity;
 
+        if !self.index_cache.is_empty() {
+            let icache = h as usize & (self.index_cache.bit_len() - 1);
+            // an entry missing from the cache is not in the filter yet
+            if !self.index_cache.get_nth_bit(icache) {
+                if reached_cap {
+                    return Err(Error::TooManyEntries);
+                }
+                self.index_cache.set_nth_bit(icache);
+                new = true;
+            }
+        }
+
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
                 return Err(Error::TooManyEntries);
@@ -414,11 +426,6 @@ impl BloomFilter {
             self.count += 1;
         }
 
-        if !self.index_cache.is_empty() {
-            self.index_cache
-                .set_nth_bit(h as usize & (self.index_cache.bit_len() - 1));
-        }
-
         Ok(new)
     }
 
-- 
2.43.0


From 25f3a981d80c65a71af799b00c902e36a75996f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:34 +0000
Subject: [PATCH 14/16] fix: bits of a partially loaded v1 filter no longer
 panics

---
 poppy/src/bloom/v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 0ff1779..4bff94a 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -249,7 +249,9 @@ impl BloomFilter {
     }
 
     pub fn bits(&self) -> Vec<bool> {
-        (0..self.bit_size)
+        // a partially read filter has no bits in memory
+        let n_bits = self.bit_size.min(self.bitset.len() as u64 * 64);
+        (0..n_bits)
             .map(|i| self.get_nth_bit(i))
             .collect::<Vec<bool>>()
     }
-- 
2.43.0


From 488fed5fb68a887ae68508bffa9956267e1c4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:30 +0000
Subject: [PATCH 15/16] fix: report read errors while counting the lines of a
 dataset

An input that cannot be read, for example a directory, made create loop for ever: every
attempt to read a line gave another error, and errors were counted like lines.
---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 4ea9a8f..e732a7b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From ad7833f4ca337e70208e0e0240a7cd64d8bba8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:57 +0000
Subject: [PATCH 16/16] fix: benchmark with zero runs panicked on the mean of
 nothing

---
 poppy/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index fb3afe0..1a3dcb3 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -139,6 +139,11 @@ impl ByteSize {
 
 #[inline(always)]
 pub fn benchmark<F: FnMut()>(mut f: F, run: u32) -> Duration {
+    if run == 0 {
+        // there is no mean to compute
+        return Duration::ZERO;
+    }
+
     let it = run;
     let mut times = Vec::with_capacity(run as usize);
     for _ in 0..it {
-- 
2.43.0

