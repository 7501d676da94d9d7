From e5fc27222fa6388dac3cdb79f0623e1be158d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 01/33] fix: transform only the first n scratch elements when a
 larger FFT ran before

The split scratch buffers keep the size of the largest transform served so
far; passing them whole made every later, smaller f32/f64 transform on the
same object compute an FFT of the old size over stale data.
---
 src/fft.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..ba8534b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -685,8 +685,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -707,8 +707,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
-- 
2.43.0


From cf6ce5973081002ecf0d78ee9802e533e2b77fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 02/33] fix: restrict Bluestein convolution to its own length
 on reused scratch

The scratch vector keeps the size of the longest transform; a shorter
non-power-of-two transform then convolved with a longer FFT and stale data.
---
 src/fft.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ba8534b..a959640 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1105,19 +1105,19 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for v in &mut a[n..m] {
                 *v = Complex::zero();
             }
-            self.fft(&mut a)?;
-            for (ai, &bi) in a.iter_mut().zip(fft_b.iter()) {
+            self.fft(&mut a[..m])?;
+            for (ai, &bi) in a[..m].iter_mut().zip(fft_b.iter()) {
                 *ai = ai.mul(bi);
             }
-            for c in a.iter_mut() {
+            for c in a[..m].iter_mut() {
                 c.im = -c.im;
             }
-            self.fft(&mut a)?;
-            for c in a.iter_mut() {
+            self.fft(&mut a[..m])?;
+            for c in a[..m].iter_mut() {
                 c.im = -c.im;
             }
             let scale = T::one() / T::from_f32(m as f32);
-            for c in a.iter_mut() {
+            for c in a[..m].iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
             }
-- 
2.43.0


From 1f1c24f9fb9605819b1a97562eeb89b03de1b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/33] fix: use a base-4 digit reversal in fft_radix4

The reversal counter carried after one bit instead of one base-4 digit, so
every radix-4 transform of 16 or more points used a wrong permutation.
---
 src/fft.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index a959640..399119e 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1461,12 +1461,13 @@ impl<T: Float> ScalarFftImpl<T> {
         // Bit-reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
+            // Increment `j` as a digit-reversed base-4 counter.
             let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
+            while bit != 0 && j & (3 * bit) == 3 * bit {
+                j ^= 3 * bit;
                 bit >>= 2;
             }
-            j ^= bit;
+            j += bit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From 485de6fd00f8a50c1d2acc52b44392cd4e4091df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 04/33] fix: return a single point unchanged from stockham_fft
 instead of panicking

Length one reached `unreachable!()`, also through the factory object, plans
and the with-twiddles entry points.
---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 399119e..9df5ef1 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -649,6 +649,9 @@ impl<T: Float> ScalarFftImpl<T> {
         if n == 0 {
             return Err(FftError::EmptyInput);
         }
+        if n == 1 {
+            return Ok(());
+        }
         if !n.is_power_of_two() {
             return self.fft(input);
         }
-- 
2.43.0


From 2a77512d831ab9e6339f8d3bc52cd7a477a1c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 05/33] fix: reduce the Bluestein chirp phase modulo 2n

i*i was rounded to f32 and multiplied by pi, so the phase lost all precision
for long non-power-of-two transforms, also for f64 (errors of 1e-3 and more).
---
 src/fft.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 9df5ef1..152857c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,10 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // The chirp is periodic in i^2 with period 2n; reduce before
+                // converting so that the phase keeps full precision.
+                let k = (i * i) % (2 * n);
+                let angle = T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 8f308194791b6e30eeaf74205403b3c88fbc30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 06/33] fix: keep full precision in the 8- and 16-point kernels
 for f64

The kernels used f32-rounded twiddle constants for every number type, which
limited f64 transforms (and everything built on them) to single precision.
---
 src/fft_kernels.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..1448b25 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -1,5 +1,17 @@
 use crate::num::{Complex, Float};
 
+// Irrational twiddle constants as an f32 value plus the f32 remainder, so that
+// types wider than f32 keep their own precision.
+fn sqrt1_2<T: Float>() -> T {
+    T::from_f32(0.70710677) + T::from_f32(1.2101617e-8)
+}
+fn cos_pi_8<T: Float>() -> T {
+    T::from_f32(0.9238795) + T::from_f32(2.830749e-8)
+}
+fn sin_pi_8<T: Float>() -> T {
+    T::from_f32(0.38268343) + T::from_f32(6.2233507e-9)
+}
+
 #[inline(always)]
 pub fn fft2<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 2);
@@ -32,7 +44,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = sqrt1_2::<T>(); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +119,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = sqrt1_2::<T>(); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +190,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = cos_pi_8::<T>();
+    let s1 = -sin_pi_8::<T>();
+    let c2 = s;
+    let s2 = -s;
+    let c3 = sin_pi_8::<T>();
+    let s3 = -cos_pi_8::<T>();
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
-- 
2.43.0


From a46f1a39ca0ccbe1820f143247dd9be978c2c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 07/33] fix: let IstftStream handle a hop larger than the
 window

The overlap buffer was only sized for the window, so pushing frames with
hop > win_len ran past its end after a few frames.
---
 src/stft.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..4076984 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -428,8 +428,8 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
-        let buffer = vec![0.0f32; win_len + hop * 2];
-        let norm_buf = vec![0.0f32; win_len + hop * 2];
+        let buffer = vec![0.0f32; win_len.max(hop) + hop * 2];
+        let norm_buf = vec![0.0f32; win_len.max(hop) + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
         Ok(Self {
             win_len,
@@ -478,14 +478,15 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        let span = self.win_len.max(self.hop);
+        if self.buf_pos + span > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
+            let new_len = self.buf_pos + span;
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
         for i in 0..self.hop {
-            let idx = self.buf_pos + self.win_len - self.hop + i;
+            let idx = self.buf_pos + span - self.hop + i;
             self.buffer[idx] = 0.0;
             self.norm_buf[idx] = 0.0;
         }
-- 
2.43.0


From f7929ea401c4c9f6187b34dac9c0ea96045535e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 08/33] fix: reject a synthesis window of the wrong length in
 IstftStream::new

A shorter window made every push_frame panic and a longer one was silently
truncated.
---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 4076984..a7eaf39 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -428,6 +428,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len.max(hop) + hop * 2];
         let norm_buf = vec![0.0f32; win_len.max(hop) + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 6df55ab9dde3a10912ecb7d90699e70484464fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 09/33] fix: make istft independent of earlier output contents
 and check frames first

The overlap-add accumulated onto whatever the output buffer held, and a frame
of the wrong length was only noticed after earlier frames had been destroyed.
---
 src/stft.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index a7eaf39..e0fcab7 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -129,15 +129,18 @@ pub fn istft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
-        if frame.len() != win_len {
-            return Err(FftError::MismatchedLengths);
-        }
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start + i < output.len() {
-- 
2.43.0


From 09754d7e30e83d3d9315947187bf64802ecea279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 10/33] fix: make inverse_parallel overwrite the output and
 reject wrong frame lengths

It accumulated onto earlier output contents and panicked or truncated when a
frame did not match the window, unlike the serial istft.
---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index e0fcab7..992bb3c 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -303,6 +303,12 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
-- 
2.43.0


From a81da5f7b3e2384f3c906bbbee4a4269d092d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 11/33] fix: refuse a too short frame buffer in the parallel
 STFT

The serial form returns MismatchedLengths; the parallel one silently dropped
the tail of the signal.
---
 src/stft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 992bb3c..7ea39fa 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -245,6 +245,10 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    let required = signal.len().div_ceil(hop_size);
+    if output.len() < required {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
-- 
2.43.0


From d6f6d36cd3bf784ab881804662742ec4e2396725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 12/33] fix: report a frame of the wrong length in stft::frame
 and inverse_frame

Both indexed past a short frame (panic) and transformed a long one with the
wrong length.
---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 7ea39fa..14fd8a1 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -373,6 +373,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -402,6 +405,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
-- 
2.43.0


From 3eb68372fcce93922f4790560fac9a4b2cda5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 13/33] fix: leave the data untouched when the no_std ifft
 refuses a length

The input was conjugated before the unsupported length was noticed.
---
 src/fft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 152857c..4999954 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1145,6 +1145,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
-- 
2.43.0


From 13680012c3ed63fb03f6ae9233aad666d14238e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 14/33] fix: drop the padding sample between levels in
 multi_level_inverse

A level whose input had odd length was padded by one sample, so the
reconstructed level was one longer than the next detail vector and the
inverse indexed out of bounds.
---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..6488577 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // The forward transform pads odd lengths by one sample; drop it again.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From 7adeb2ba9fe765d4a8602336a11d5309cc0d91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 15/33] fix: synthesise db4, sym4 and coif1 with the analysis
 taps

The inverse scatters each coefficient forward from 2i, which is the
transpose of the analysis only with the unreversed taps (as db2 does).
---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 6488577..09ddc17 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -316,24 +316,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -410,24 +410,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -500,20 +500,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From 81713e5357411ecd9a8c64fc70a0bd6f0f38a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 16/33] fix: make DST-III the inverse of DST-II

The sums used the DCT-III weighting (half of the first coefficient, sines
shifted by one index), so dst3(dst2(x)) did not return n/2 * x.
---
 src/dst.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..f4ed5ea 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,11 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        // The last coefficient carries half weight; its sine is (-1)^k.
+        let half = input[n - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { half } else { -half };
+        for (i, &x) in input.iter().take(n - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +247,10 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let half = input[N - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { half } else { -half };
+        for (n, &x) in input.iter().take(N - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (n as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From c915d0d5bd2cb641c1527bb1a0d09a85bec3746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 17/33] fix: reject inputs of another length in the planned
 DCT-II

A shorter input silently used the cosine table of the planned length and a
longer one indexed out of bounds.
---
 src/dct.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..9d9ee8d 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -100,7 +100,12 @@ impl DctPlanner {
         len: usize,
     ) -> impl FnMut(&mut [f32], &mut [f32]) -> Result<(), FftError> + '_ {
         let cos = self.get_cos_table(len);
-        move |input, output| self.dct2_with_table(input, output, &cos)
+        move |input, output| {
+            if input.len() != len {
+                return Err(FftError::MismatchedLengths);
+            }
+            self.dct2_with_table(input, output, &cos)
+        }
     }
 }
 
-- 
2.43.0


From b012a31e607d7f9ccd3fa9ee1447f5003768d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 18/33] fix: evaluate the Bohman window on |x| <= 1

The window used x in [-1/2, 1/2] and the sign of x in the sine term, so it was
neither symmetric nor zero at its ends.
---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..c7217fb 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -43,8 +43,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 4ee2fb6aeb614a27707af63a1dd6c399d510a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 19/33] fix: return the single-point windows instead of NaN

Bartlett, Bohman, Nuttall and Kaiser divided by len - 1; Kaiser also
underflowed for an empty window.
---
 src/window.rs      | 6 ++++++
 src/window_more.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..f41d468 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
diff --git a/src/window_more.rs b/src/window_more.rs
index c7217fb..a009740 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -29,6 +29,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -40,6 +43,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -51,6 +57,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From 47c7082eeb1879d8b2e15d0d53498d015476dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 20/33] fix: sum the Kaiser Bessel series to convergence
 without overflow

Powers of y overflowed before being divided by the factorials, which gave NaN
for large beta, and nineteen terms are too few from beta of about twenty.
---
 src/window.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index f41d468..876ce5b 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -8,14 +8,14 @@ use libm::sqrtf;
 
 fn bessel0(x: f32) -> f32 {
     // Approximate I0(x) using a series expansion
-    let mut sum = 1.0;
+    let mut sum = 1.0f32;
     let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut t = 1.0f32;
+    let mut n = 1.0f32;
+    while t > sum * 1e-9 {
+        t *= y / (n * n);
+        sum += t;
+        n += 1.0;
     }
     sum
 }
-- 
2.43.0


From 85f973b9774b224a4c9c27d7a69c11c18906a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 21/33] fix: keep the Goertzel magnitude of a silent bin from
 becoming NaN

---
 src/goertzel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..0798715 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,7 +32,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Rounding can leave a silent bin slightly below zero.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(not(feature = "std"))]
@@ -55,7 +56,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Rounding can leave a silent bin slightly below zero.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(all(feature = "internal-tests", test))]
-- 
2.43.0


From f0331b33d1800012fbab84b9978cd57d28f4d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 22/33] fix: report a zero hop in stft_magnitudes instead of
 dividing by it

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From 0c67e3fd9b6ca08c00805e992754d4298ea8cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 23/33] fix: leave the data untouched when the no_std
 ifft_split refuses a length

---
 src/fft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 4999954..f47ad53 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1404,6 +1404,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if re.len() != im.len() {
             return Err(FftError::MismatchedLengths);
         }
+        #[cfg(not(feature = "std"))]
+        if !re.is_empty() && !re.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
-- 
2.43.0


From 3c938713436a784ad83ae0ec38df451a904d2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 24/33] fix: report empty input in
 fft_mixed_radix_with_twiddles

factorize(0) never terminates.
---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index f47ad53..7368fc9 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1680,6 +1680,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From c2e566225ab932fb0817b6b174f04cec842932f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 25/33] fix: refuse strides whose span overflows instead of
 panicking

---
 src/fft.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 7368fc9..01942ad 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1195,7 +1195,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1256,7 +1259,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From c9886435af55f1b16c0da5f17a9ff5a429962ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 26/33] fix: refuse multi-dimensional shapes whose size
 overflows instead of panicking

---
 src/ndfft.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..038e538 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,10 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    let total = depth
+        .checked_mul(rows)
+        .and_then(|plane| plane.checked_mul(cols));
+    if total != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From 9ab2e3bc4534427d4f4b890ca5bc98f390a9401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 27/33] fix: call libm instead of recursing for ever in the
 no_std sin, cos, sin_cos and mul_add

---
 src/num.rs | 72 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index af16bca..feb07be 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -48,20 +48,48 @@ impl Float for f32 {
         x
     }
     fn cos(self) -> Self {
-        f32::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cosf(self)
+        }
     }
     fn sin(self) -> Self {
-        f32::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sinf(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f32::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincosf(self)
+        }
     }
     fn pi() -> Self {
         PI32
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f32::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f32::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            self * a + b
+        }
     }
 }
 
@@ -85,20 +113,48 @@ impl Float for f64 {
         x as f64
     }
     fn cos(self) -> Self {
-        f64::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cos(self)
+        }
     }
     fn sin(self) -> Self {
-        f64::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sin(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f64::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincos(self)
+        }
     }
     fn pi() -> Self {
         core::f64::consts::PI
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f64::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f64::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            self * a + b
+        }
     }
 }
 
-- 
2.43.0


From 997c20b0da1c90cd4bdb3cb37e509358fdef1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 28/33] fix: saturate the parallel threshold product instead of
 overflowing

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 01942ad..60994ef 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From b413beb3078f4896a41c9e5b368f60ee7cd0ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 29/33] fix: mix multi-channel WAV files to mono like every
 other format

---
 sanity-check/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index e5a7bee..0fb4b9d 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -103,7 +103,15 @@ fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
         .samples::<i16>()
         .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
         .collect::<Result<_, _>>()?;
-    Ok((samples, spec.sample_rate))
+    let channels = spec.channels as usize;
+    if channels <= 1 {
+        return Ok((samples, spec.sample_rate));
+    }
+    let mixed = samples
+        .chunks_exact(channels)
+        .map(|frame| frame.iter().sum::<f32>() / channels as f32)
+        .collect();
+    Ok((mixed, spec.sample_rate))
 }
 
 pub fn save_png(
-- 
2.43.0


From ba58d63cbc879329002fbafce76d86e308dfbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 30/33] fix: the last frequency bin was mapped below the top
 pixel for 133 of the picture heights up to 4096

---
 src/visual/spectrogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..cd7665c 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -215,7 +215,8 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-        (max_bin as f32 * pos / log_max).floor() as usize
+        // Divide first: the quotient of the last bin is then exactly one.
+        (max_bin as f32 * (pos / log_max)).floor() as usize
     }
 }
 
-- 
2.43.0


From 66e0ee727c5de95045f26f1444e712a34cc7db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 31/33] fix: web-spectrogram library compiles again (merge
 residue in two getters)

---
 web-spectrogram/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/web-spectrogram/src/lib.rs b/web-spectrogram/src/lib.rs
index bddb61a..f64481a 100644
--- a/web-spectrogram/src/lib.rs
+++ b/web-spectrogram/src/lib.rs
@@ -120,13 +120,7 @@ impl FftResult {
 
     #[wasm_bindgen(getter)]
     pub fn im(&self) -> Vec<f32> {
-    pub fn re(&self) -> Float32Array {
-        Float32Array::from(self.re.as_slice())
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn im(&self) -> Float32Array {
-        Float32Array::from(self.im.as_slice())
+        self.im.clone()
     }
 }
 
@@ -164,13 +158,7 @@ impl HaarResult {
 
     #[wasm_bindgen(getter)]
     pub fn diff(&self) -> Vec<f32> {
-    pub fn avg(&self) -> Array {
-        self.avg.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn diff(&self) -> Array {
-        self.diff.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
+        self.diff.clone()
     }
 }
 
-- 
2.43.0


From 8ad9151d6b1118c5a54c4f34429447b5fdad4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 32/33] fix: web-spectrogram script parses again (merge
 residue, missing brace)

---
 web-spectrogram/app.mjs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index da8d8b8..898ad58 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -66,8 +66,6 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.compileShader(vs);
 
   const fs = gl.createShader(gl.FRAGMENT_SHADER);
-  gl.shaderSource(
-    fs,
   const fragmentShaderSource = `
     precision highp float;
     varying vec2 v;
@@ -166,6 +164,7 @@ export function drawSpectrogram(
       drawSpectrogramCanvas(canvas, res, colorFn, colormap);
       return;
     }
+  }
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0


From cb41061e14d2ba61e202bfe3172262fb51be92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 33/33] fix: short-time transforms no longer overflow for hops
 beyond the address range

---
 src/stft.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 14fd8a1..e763517 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -89,10 +89,10 @@ pub fn stft<Fft: FftImpl<f32>>(
     }
     let win_len = window.len();
     for (frame_idx, frame) in output.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
         for i in 0..win_len {
-            let x = if start + i < signal.len() {
+            let x = if start.saturating_add(i) < signal.len() {
                 signal[start + i] * window[i]
             } else {
                 0.0
@@ -140,10 +140,10 @@ pub fn istft<Fft: FftImpl<f32>>(
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         fft.ifft(frame)?;
         for i in 0..win_len {
-            if start + i < output.len() {
+            if start.saturating_add(i) < output.len() {
                 output[start + i] += frame[i].re * window[i];
                 scratch[start + i] += window[i] * window[i];
             }
@@ -254,10 +254,10 @@ pub fn parallel<Fft: FftImpl<f32>>(
         .par_iter_mut()
         .enumerate()
         .try_for_each(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             frame.clear();
             for i in 0..win_len {
-                let x = if start + i < signal.len() {
+                let x = if start.saturating_add(i) < signal.len() {
                     signal[start + i] * window[i]
                 } else {
                     0.0
@@ -319,7 +319,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .par_iter()
         .enumerate()
         .map(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
@@ -339,7 +339,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     norm.resize(output.len(), 0.0);
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
-            if start + i < output.len() {
+            if start.saturating_add(i) < output.len() {
                 output[start + i] += acc_frame[i];
                 norm[start + i] += norm_frame[i];
             }
@@ -377,7 +377,7 @@ pub fn frame<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     for i in 0..win_len {
-        let x = if start + i < signal.len() {
+        let x = if start.saturating_add(i) < signal.len() {
             signal[start + i] * window[i]
         } else {
             0.0
@@ -410,7 +410,7 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     }
     fft.ifft(frame)?;
     for i in 0..win_len {
-        if start + i < output.len() {
+        if start.saturating_add(i) < output.len() {
             output[start + i] += frame[i].re * window[i];
         }
     }
-- 
2.43.0

