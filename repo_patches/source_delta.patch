From ef8dc4a2eb3480217ccea2f9a8bb42a6aa7bf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:50 +0000
Subject: [PATCH 1/6] fix: Radix4 computed a wrong transform for every length
 >= 128

prepare_radix4_reversed wrote the interleaved quarters in un-reversed order,
which only matters once there are two or more radix-4 layers.
---
 src/scalar/radix4.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..8239609 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -339,21 +339,25 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Reversing the input also reverses the order of the interleaved quarters: element 4n + i of the reversed input
+        // comes from quarter 3 - i of the un-reversed input
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+
+        // The last quarter would be reversed once more, so the two reversals cancel out
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0


From ab9597c28c1d8f9af1efdddde43adf48034b970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:51 +0000
Subject: [PATCH 2/6] fix: keep double precision in the sqrt(0.5) twiddle scale

0.5f32.sqrt() limited f64 transforms to single precision in MixedRadix and
MixedRadix{3,5,6}xn.
---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..32805ff 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..ac3ae52 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..4923178 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From afd1a527508f9474535735c959edd255a6e09d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:52 +0000
Subject: [PATCH 3/6] fix: RadersAlgorithm::new panicked for the prime length 2

---
 src/math_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..54ad52b 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -55,6 +55,11 @@ pub fn distinct_prime_factors(mut n: u64) -> Vec<u64> {
 }
 
 pub fn primitive_root(prime: u64) -> Option<u64> {
+    // the multiplicative group mod 2 is trivial: its only element, 1, generates it
+    if prime == 2 {
+        return Some(1);
+    }
+
     let test_exponents: Vec<u64> = distinct_prime_factors(prime - 1)
         .iter()
         .map(|factor| (prime - 1) / factor)
-- 
2.43.0


From b1287e667566f99ce982702f98a6150f346e1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:53 +0000
Subject: [PATCH 4/6] fix: MixedRadix{2..6}xn did not pass inner DHTs the
 scratch they require

An inner DHT needing out-of-place scratch, or more in-place scratch than the
outer length, panicked even though the caller supplied the advertised scratch.
---
 src/scalar/radix2.rs | 30 +++++++++++++++---------------
 src/scalar/radix3.rs | 30 +++++++++++++++---------------
 src/scalar/radix4.rs | 30 +++++++++++++++---------------
 src/scalar/radix5.rs | 30 +++++++++++++++---------------
 src/scalar/radix6.rs | 30 +++++++++++++++---------------
 5 files changed, 75 insertions(+), 75 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..fbb1fca 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -34,6 +34,7 @@ impl<T: FftNum> MixedRadix2xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -49,18 +50,10 @@ impl<T: FftNum> MixedRadix2xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, our inner DHT is out-of-place, bouncing data between the buffer and self.len() elements of scratch
+        // If our inner DHT's OOP DHT requires any scratch, we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -123,11 +116,13 @@ impl<T: FftNum> MixedRadix2xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +132,18 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 32805ff..6418a16 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -38,6 +38,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -53,18 +54,10 @@ impl<T: FftNum> MixedRadix3xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, our inner DHT is out-of-place, bouncing data between the buffer and self.len() elements of scratch
+        // If our inner DHT's OOP DHT requires any scratch, we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -147,11 +140,13 @@ impl<T: FftNum> MixedRadix3xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +156,18 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index 8239609..8d51d51 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -35,6 +35,7 @@ impl<T: FftNum> MixedRadix4xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -50,18 +51,10 @@ impl<T: FftNum> MixedRadix4xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, our inner DHT is out-of-place, bouncing data between the buffer and self.len() elements of scratch
+        // If our inner DHT's OOP DHT requires any scratch, we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -153,11 +146,13 @@ impl<T: FftNum> MixedRadix4xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +162,18 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index ac3ae52..edc84b8 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -39,6 +39,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -54,18 +55,10 @@ impl<T: FftNum> MixedRadix5xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, our inner DHT is out-of-place, bouncing data between the buffer and self.len() elements of scratch
+        // If our inner DHT's OOP DHT requires any scratch, we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -170,11 +163,13 @@ impl<T: FftNum> MixedRadix5xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +179,18 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 4923178..206d658 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -40,6 +40,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -55,18 +56,10 @@ impl<T: FftNum> MixedRadix6xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, our inner DHT is out-of-place, bouncing data between the buffer and self.len() elements of scratch
+        // If our inner DHT's OOP DHT requires any scratch, we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -186,11 +179,13 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +195,18 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 113596568b0816b9db1fe5f262829d5404c7961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:54 +0000
Subject: [PATCH 5/6] fix: SplitRadix did not pass inner DHTs the scratch they
 require

---
 src/scalar/split_radix.rs | 54 ++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..48bec30 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{cmp::max, sync::Arc};
 
 use num_complex::Complex;
 use rustfft::{FftNum, Length};
@@ -33,14 +33,39 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // Collect some data about what kind of scratch space our inner DHTs need
+        let half_inplace_scratch = half_dht.get_inplace_scratch_len();
+        let quarter_inplace_scratch = quarter_dht.get_inplace_scratch_len();
+        let quarter_outofplace_scratch = quarter_dht.get_outofplace_scratch_len();
+
+        // When we compute an out-of-place DHT, both of our inner DHTs are in-place, and we can use the output buffer as their scratch, unless they need more than that
+        let max_inner_inplace_scratch = max(half_inplace_scratch, quarter_inplace_scratch);
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+
+        // When we compute an in-place DHT, our half DHT is in-place and our quarter DHT is out-of-place. We need half_len elements for ourselves,
+        // and if either inner DHT needs more than that, we tack it on to the end of our own scratch
+        let inplace_scratch_len = half_len
+            + max(
+                if half_inplace_scratch > half_len {
+                    half_inplace_scratch
+                } else {
+                    0
+                },
+                quarter_outofplace_scratch,
+            );
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -119,9 +144,15 @@ impl<T: FftNum> SplitRadix<T> {
         let quarter_len = self.len() / 4;
 
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
-
-        self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
+
+        let half_scratch = if inner_scratch.len() > scratch.len() {
+            &mut inner_scratch[..]
+        } else {
+            &mut scratch[..]
+        };
+        self.half_dht.process_with_scratch(buffer_evens, half_scratch);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +168,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +177,13 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch = if scratch.len() > output.len() {
+            &mut scratch[..]
+        } else {
+            &mut output[..]
+        };
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0


From d34e18637865228760bc6a24c2a1ff2449263a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:56 +0000
Subject: [PATCH 6/6] fix: Butterfly1 accepted empty buffers instead of
 panicking as documented

---
 src/scalar/butterflies.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..2a4f8d0 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,19 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+            return; // Unreachable, because dht_error_outofplace asserts
+        }
+
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0

