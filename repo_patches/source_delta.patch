From 45ff2c69add31e072044e24b340ea8e9d32cb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 1/7] fix: implement std::error::Error only when std is
 available

The unconditional impl broke every --no-default-features (no_std) build.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From fac61bd764d467da95524401ac2ec1b96afaf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 2/7] fix: do not overflow usize when squaring the register
 count

count * count is 2^32 or more for precisions 16 and above, which overflows
a 32-bit usize.
---
 src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 514a40d..420bfbb 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -158,7 +158,7 @@ pub trait HyperLogLogCommon {
             zeros += if value == 0 { 1 } else { 0 };
         }
 
-        raw = Self::alpha(count) * (count * count) as f64 / raw;
+        raw = Self::alpha(count) * (count as f64 * count as f64) / raw;
 
         (raw, zeros)
     }
@@ -172,7 +172,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| 1.0 / (1u64 << val) as f64).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[cfg(feature = "const-loop")]
@@ -184,7 +184,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| RAW[val as usize]).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[inline] // Estimates the count of distinct elements using linear
-- 
2.43.0


From 1b181fe45ac9b98d23951299c403921998b43cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 3/7] fix: keep the large range correction finite when the raw
 estimate reaches 2^32

count() returned NaN (or infinity) for such sketches.
---
 src/hyperloglog.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..8a3dbc2 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,6 +190,10 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
+            //
+            // There are 2^32 hash values, hence a raw estimate that reaches
+            // 2^32 is saturated and has no correction (NaN or infinity).
+            raw = raw.min(two32 - 1.0);
             raw = -1.0 * two32 * ln(1.0 - raw / two32);
         }
 
-- 
2.43.0


From 74472e20ffb4c838ab58c5ab1cbdb0b904868fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 4/7] fix: use the published linear counting threshold for
 precision 5

The HyperLogLog++ appendix gives 20 for precision 5 (10 is for precision 4).
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..5190cde 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0


From f21107d58f9f8ce3f673a4d25de823d6454791a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 5/7] fix: use all 2^25 sparse buckets in sparse linear
 counting

Sparse hash codes have a 25-bit index but linear counting assumed 2^24
buckets, overestimating by n^2 / 2^26.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 5190cde..4391e20 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0


From 7f18f942b9e6ecb9b9c9b4ac0ce0adc47a3c6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 6/7] fix: count each sparse bucket once in sparse linear
 counting

Hash codes that share an index but differ in leading zeros were counted as
distinct registers.
---
 src/hyperloglogplus.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 4391e20..4474642 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -518,7 +518,27 @@ where
                 // We use sparse representation.
 
                 // Calculate number of registers set to zero.
-                let zeros = self.counts.1 - self.sparse.count();
+                //
+                // Odd hash codes carry also the leading zeros count, so an
+                // index may occur more than once. Hash codes are sorted,
+                // count only the first one of each index.
+                let mut last_index = None;
+                let mut duplicates = 0;
+
+                for hash_code in self.sparse.into_iter() {
+                    if hash_code & 1 == 1 {
+                        let index = Some(hash_code >> 7);
+
+                        if index == last_index {
+                            duplicates += 1;
+                        }
+
+                        last_index = index;
+                    }
+                }
+
+                let zeros =
+                    self.counts.1 - (self.sparse.count() - duplicates);
 
                 // Use linear counting to approximate.
                 Self::linear_count(self.counts.1, zeros)
-- 
2.43.0


From a747670d0db3e822ca4d55ca64b931151b1b395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 7/7] fix: read the files of the named input directory, not of
 a pattern

A directory name with pattern characters ('in[1]') selected the files of other
directories ('in1'), or none.
---
 evaluation/exp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/exp.py b/evaluation/exp.py
index ccae5a6..7fc2576 100755
--- a/evaluation/exp.py
+++ b/evaluation/exp.py
@@ -58,7 +58,7 @@ def run(args):
         ])
     else:
         command.append('--input')
-        command.extend(glob.glob('{}/*.dat'.format(args.input)))
+        command.extend(glob.glob('{}/*.dat'.format(glob.escape(args.input))))
 
     subprocess.run(command, check=True)
 
@@ -132,7 +132,7 @@ def calculate_statistics(location):
     '''Calculates statistics from estimations.'''
     files = [
         open(filename, 'r')
-        for filename in glob.glob('{}/*.dat'.format(location))
+        for filename in glob.glob('{}/*.dat'.format(glob.escape(location)))
     ]
 
     cardinalities, means, medians, stdevs = [], [], [], []
-- 
2.43.0

