From 771f0312d9cc7a076146c0a9a083152449e5f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 1/6] fix: Radix4 reordered reversed columns wrongly, so every
 length from 128 up was wrong

---
 src/scalar/radix4.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..4e5ba48 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -339,21 +339,22 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Column i of the reversed input is column 3 - i of the original input, reversed. The last column gets reversed a second time.
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0


From eeb005b67dfbacf0770ec890047034e62367f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 2/6] fix: compute the sqrt(0.5) twiddle factor in f64, so f64
 transforms keep f64 accuracy

---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..32805ff 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..ac3ae52 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..4923178 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From ccbf6a8bb4aebe38057085004b8a924e87e9daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 3/6] fix: MixedRadix2xn..6xn pass their inner DHT the scratch
 space it asks for

---
 src/scalar/radix2.rs | 18 +++++++-----------
 src/scalar/radix3.rs | 18 +++++++-----------
 src/scalar/radix4.rs | 18 +++++++-----------
 src/scalar/radix5.rs | 18 +++++++-----------
 src/scalar/radix6.rs | 18 +++++++-----------
 5 files changed, 35 insertions(+), 55 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..5679b65 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -53,14 +53,7 @@ impl<T: FftNum> MixedRadix2xn<T> {
         // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
         // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
         // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -123,11 +116,13 @@ impl<T: FftNum> MixedRadix2xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +132,14 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 32805ff..be3cf31 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -57,14 +57,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
         // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
         // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
         // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -147,11 +140,13 @@ impl<T: FftNum> MixedRadix3xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +156,14 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index 4e5ba48..c00ec6b 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -54,14 +54,7 @@ impl<T: FftNum> MixedRadix4xn<T> {
         // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
         // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
         // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -153,11 +146,13 @@ impl<T: FftNum> MixedRadix4xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +162,14 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index ac3ae52..e0b6108 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -58,14 +58,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
         // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
         // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
         // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -170,11 +163,13 @@ impl<T: FftNum> MixedRadix5xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +179,14 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 4923178..733eab7 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -59,14 +59,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
         // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
         // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -186,11 +179,13 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +195,14 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 88356ff7c78a99f28a856422d72b86815fa35384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 4/6] fix: SplitRadix passes its inner DHTs the scratch space
 they ask for

---
 src/scalar/split_radix.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..715eedc 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{cmp::max, sync::Arc};
 
 use num_complex::Complex;
 use rustfft::{FftNum, Length};
@@ -33,14 +33,32 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // If the inner DHTs need more scratch than the buffers we can lend them, we have to request it from the caller
+        let half_inplace_scratch = half_dht.get_inplace_scratch_len();
+        let max_inner_inplace_scratch = max(half_inplace_scratch, quarter_dht.get_inplace_scratch_len());
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+        let inplace_scratch_len = half_len
+            + max(
+                if half_inplace_scratch > half_len {
+                    half_inplace_scratch
+                } else {
+                    0
+                },
+                quarter_dht.get_outofplace_scratch_len(),
+            );
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -119,9 +137,11 @@ impl<T: FftNum> SplitRadix<T> {
         let quarter_len = self.len() / 4;
 
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
 
-        self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+        let half_scratch = if inner_scratch.len() > scratch.len() { &mut inner_scratch[..] } else { &mut scratch[..] };
+        self.half_dht.process_with_scratch(buffer_evens, half_scratch);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +157,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +166,9 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch = if scratch.len() > output.len() { scratch } else { &mut output[..] };
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0


From 92ede22e39ec9233a9bdb2a487fe14a7ca7692d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 5/6] fix: find the primitive root of 2, so RadersAlgorithm
 accepts a length-1 inner DHT

---
 src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..8a53d2b 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -59,7 +59,7 @@ pub fn primitive_root(prime: u64) -> Option<u64> {
         .iter()
         .map(|factor| (prime - 1) / factor)
         .collect();
-    'next: for potential_root in 2..prime {
+    'next: for potential_root in 1..prime {
         // for each distinct factor, if potential_root^(p-1)/factor mod p is 1, reject it
         for exp in &test_exponents {
             if modular_exponent(potential_root, *exp, prime) == 1 {
-- 
2.43.0


From 020baa13d592538be408aeca953a8489caaa512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 6/6] fix: Butterfly1 rejects a buffer shorter than its length,
 as documented

---
 src/scalar/butterflies.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..dd055b5 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,18 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+            return; // Unreachable, because dht_error_outofplace asserts
+        }
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0

