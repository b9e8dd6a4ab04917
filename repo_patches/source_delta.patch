From 6a1e701dff41db9b3d1e738e641e8da42375f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 01/31] fix: compute SSIM and MS-SSIM on the visible samples
 only

plane_to_vec copied the whole allocation, padding included, while the
rows were then addressed with the visible width as stride.
---
 av_metrics/src/video/ssim.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..310675c 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input
+        .rows_iter()
+        .flatten()
+        .map(|pix| u32::cast_from(*pix))
+        .collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From 7b14059cb943eae906e5845a0a97521fa667a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 02/31] fix: sum PSNR errors over the visible samples only

The squared error included the padding, the sample count did not.
---
 av_metrics/src/video/psnr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..7dac9f7 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -187,9 +187,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
-        .iter()
-        .zip(plane2.data.iter())
+        .rows_iter()
+        .flatten()
+        .zip(plane2.rows_iter().flatten())
         .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
-- 
2.43.0


From ec7f9134a0d54a5c1a8d5a0ffd010c38354e4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 03/31] fix: start PSNR-HVS at the origin of the picture

Blocks were read from the start of the allocation, which is padding when
the plane has any.
---
 av_metrics/src/video/psnr_hvs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..1a3bb4a 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -212,12 +212,12 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
     let stride = plane1.cfg.stride;
+    let data1 = plane1.data_origin();
+    let data2 = plane2.data_origin();
     let mut p1 = [0i16; 8 * 8];
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
     let mut dct_p2 = [0i32; 8 * 8];
-    assert!(plane1.data.len() >= stride * height);
-    assert!(plane2.data.len() >= stride * height);
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +233,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From 45fd9943bce715b2813faea70bbe2856bd3524ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 04/31] fix: address CIEDE2000 rows by stride and origin

Rows were located with the visible width as stride, from the start of the
allocation, so padded planes and planes whose stride exceeds the width
were scored on the wrong samples.
---
 av_metrics/src/video/ciede/mod.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..8952a22 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -93,6 +93,7 @@ impl Default for Ciede2000 {
 
 use rayon::prelude::*;
 use v_frame::frame::Frame;
+use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
 impl VideoMetric for Ciede2000 {
@@ -117,32 +118,25 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
-            let c_end = c_start + c_width;
+            let c_row = i >> dec.1;
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
-                        y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        y: visible_row(&frame1.planes[0], i),
+                        u: visible_row(&frame1.planes[1], c_row),
+                        v: visible_row(&frame1.planes[2], c_row),
                     },
                     FrameRow {
-                        y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        y: visible_row(&frame2.planes[0], i),
+                        u: visible_row(&frame2.planes[1], c_row),
+                        v: visible_row(&frame2.planes[2], c_row),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -164,6 +158,11 @@ impl VideoMetric for Ciede2000 {
     }
 }
 
+/// The visible samples of one row of a plane.
+fn visible_row<T: Pixel>(plane: &Plane<T>, row: usize) -> &[T] {
+    &plane.data_origin()[row * plane.cfg.stride..][..plane.cfg.width]
+}
+
 // Arguments for delta e
 // "Color Image Quality Assessment Based on CIEDE2000"
 // Yang Yang, Jun Ming and Nenghai Yu, 2012
-- 
2.43.0


From cdd8b3cba0914c6924906be3905385c95994f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 05/31] fix: report unsupported bit depths in CIEDE2000 instead
 of panicking

---
 av_metrics/src/video/ciede/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 8952a22..69a0195 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -115,6 +115,12 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 supports bit depths of 8, 10 and 12 only",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From afe455d90644023e9a5a77128f70d2111ac75690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 06/31] fix: make the vectorised CIEDE2000 chroma loads sound

Four bytes were loaded through an unaligned i32 reference, and with chroma
planes smaller than the declared sampling the load went past the end of
the row.
---
 av_metrics/src/video/ciede/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 69a0195..723574e 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -124,6 +124,15 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
+        let c_dimensions = chroma_sampling.get_chroma_dimensions(y_width, y_height);
+        if frame1.planes[1..]
+            .iter()
+            .any(|p| (p.cfg.width, p.cfg.height) != c_dimensions)
+        {
+            return Err(Box::new(MetricsError::InputMismatch {
+                reason: "Chroma plane sizes do not match the chroma sampling",
+            }));
+        }
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
@@ -425,7 +434,8 @@ mod avx2 {
 
                         #[inline(always)]
                         unsafe fn load_chroma(chunk: &[u8]) -> __m256 {
-                            let tmp = _mm_cvtsi32_si128(*(chunk.as_ptr() as *const i32));
+                            let tmp =
+                                _mm_cvtsi32_si128((chunk.as_ptr() as *const i32).read_unaligned());
                             _mm256_cvtepi32_ps(_mm256_cvtepu8_epi32(_mm_unpacklo_epi8(tmp, tmp)))
                         }
 
-- 
2.43.0


From d18d387850c3c8c62026cfa92d5d1ac76ca5617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 07/31] fix: never report a PSNR above the score of equal
 planes

Large or deep planes with a tiny error scored more than the 100 dB given
to identical ones.
---
 av_metrics/src/video/psnr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 7dac9f7..4c263ce 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,11 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    // Equal planes score 100, so nothing may score more.
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From 6191d79c897dc69298ce8ccaaf127bb028ddc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 08/31] fix: do not turn rounding in SSIM into NaN

The accumulated similarity of equal planes can exceed the weight by one
ulp, and the logarithm of the negative difference is NaN.
---
 av_metrics/src/video/ssim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 310675c..4effa5f 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -503,5 +503,8 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    let err = weight - score;
+    // Rounding can carry the score of nearly equal planes past its maximum.
+    let err = if err < 0.0 { 0.0 } else { err };
+    10.0 * (weight.log10() - err.log10())
 }
-- 
2.43.0


From bbe08e48a6213a181a258601c66ed354bff1a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 09/31] fix: do not return NaN from MS-SSIM for negatively
 correlated planes

---
 av_metrics/src/video/ssim.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 4effa5f..e79e0bc 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -436,12 +436,13 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
         cs[i] = res.1;
     }
 
+    // A negative term has no real fractional power; it counts as no similarity.
     cs.iter()
         .zip(MS_WEIGHT.iter())
         .take(4)
-        .map(|(cs, weight)| cs.powf(*weight))
+        .map(|(cs, weight)| cs.max(0.0).powf(*weight))
         .fold(1.0, |acc, val| acc * val)
-        * ssim[4].powf(MS_WEIGHT[4])
+        * ssim[4].max(0.0).powf(MS_WEIGHT[4])
 }
 
 fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Vec<i64> {
-- 
2.43.0


From b330f37a91cba80400b7818f149d91ab9444a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 10/31] fix: keep the MS-SSIM moments of deep samples from
 overflowing

At 14 bits and more the coarse scales need more than 64 bits.
---
 av_metrics/src/video/ssim.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index e79e0bc..93d8333 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -373,14 +373,16 @@ fn calculate_plane_ssim_internal(
             let k_max = vert_kernel.len() - tmp_offset;
             for x in 0..width {
                 let mut moments = SsimMoments::default();
+                // The second moments of deep samples do not fit in 64 bits here.
+                let (mut x2, mut xy, mut y2) = (0i128, 0i128, 0i128);
                 for k in k_min..k_max {
                     let buf = lines[(y + 1 + k - vert_kernel.len()) & line_mask][x];
                     let window = vert_kernel[k];
                     moments.mux += window * buf.mux;
                     moments.muy += window * buf.muy;
-                    moments.x2 += window * buf.x2;
-                    moments.xy += window * buf.xy;
-                    moments.y2 += window * buf.y2;
+                    x2 += i128::from(window) * i128::from(buf.x2);
+                    xy += i128::from(window) * i128::from(buf.xy);
+                    y2 += i128::from(window) * i128::from(buf.y2);
                     moments.w += window * buf.w;
                 }
                 let w = moments.w as f64;
@@ -389,8 +391,8 @@ fn calculate_plane_ssim_internal(
                 let mx2 = (moments.mux as f64).powi(2);
                 let mxy = moments.mux as f64 * moments.muy as f64;
                 let my2 = (moments.muy as f64).powi(2);
-                let cs_tmp = w * (c2 + 2.0 * (moments.xy as f64 * w - mxy))
-                    / (moments.x2 as f64 * w - mx2 + moments.y2 as f64 * w - my2 + c2);
+                let cs_tmp = w * (c2 + 2.0 * (xy as f64 * w - mxy))
+                    / (x2 as f64 * w - mx2 + y2 as f64 * w - my2 + c2);
                 cs += cs_tmp;
                 ssim += cs_tmp * (2.0 * mxy + c1) / (mx2 + my2 + c1);
                 ssimw += w;
-- 
2.43.0


From c658328c4de0072aa6763f5458ee60d44ce5f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 11/31] fix: keep PSNR-HVS from overflowing on deep samples

16-bit samples do not fit in i16 and their DCT not in i32, which wrapped
in release builds and panicked in debug builds.
---
 av_metrics/src/video/psnr_hvs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 1a3bb4a..3609e89 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -214,10 +214,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let stride = plane1.cfg.stride;
     let data1 = plane1.data_origin();
     let data2 = plane2.data_origin();
-    let mut p1 = [0i16; 8 * 8];
-    let mut p2 = [0i16; 8 * 8];
-    let mut dct_p1 = [0i32; 8 * 8];
-    let mut dct_p2 = [0i32; 8 * 8];
+    let mut p1 = [0i32; 8 * 8];
+    let mut p2 = [0i32; 8 * 8];
+    let mut dct_p1 = [0i64; 8 * 8];
+    let mut dct_p2 = [0i64; 8 * 8];
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +233,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
@@ -277,10 +277,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
             }
 
             p1.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p1[i] = v as i32;
+                dct_p1[i] = i64::from(v);
             });
             p2.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p2[i] = v as i32;
+                dct_p2[i] = i64::from(v);
             });
             od_bin_fdct8x8(&mut dct_p1);
             od_bin_fdct8x8(&mut dct_p2);
@@ -322,7 +322,7 @@ fn log10_convert(score: f64, weight: f64) -> f64 {
 const DCT_STRIDE: usize = 8;
 
 // Based on daala's version. It is different from the 8x8 DCT we use during encoding.
-fn od_bin_fdct8x8(data: &mut [i32]) {
+fn od_bin_fdct8x8(data: &mut [i64]) {
     assert!(data.len() >= 64);
     let mut z = [0; 64];
     for i in 0..8 {
@@ -334,7 +334,7 @@ fn od_bin_fdct8x8(data: &mut [i32]) {
 }
 
 #[allow(clippy::identity_op)]
-fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
+fn od_bin_fdct8(y: &mut [i64], x: &[i64]) {
     assert!(y.len() >= 8);
     assert!(x.len() > 7 * DCT_STRIDE);
     let mut t = [0; 8];
@@ -401,9 +401,9 @@ fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
 /// This will not work for `b == 0`, however currently this is only used for
 /// `b == 1` anyway.
 #[inline(always)]
-fn od_dct_rshift(a: i32, b: u32) -> i32 {
+fn od_dct_rshift(a: i64, b: u32) -> i64 {
     debug_assert!(b > 0);
-    debug_assert!(b <= 32);
+    debug_assert!(b <= 64);
 
-    ((a as u32 >> (32 - b)) as i32 + a) >> b
+    ((a as u64 >> (64 - b)) as i64 + a) >> b
 }
-- 
2.43.0


From c9f5f449edd5c15f88b34270eb65f97b33b03ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 12/31] fix: report planes too small for PSNR-HVS and MS-SSIM

PSNR-HVS underflowed and panicked below 8 samples; MS-SSIM ran out of
samples before its fifth scale below 16 and returned NaN.
---
 av_metrics/src/video/mod.rs      | 10 ++++++++++
 av_metrics/src/video/psnr_hvs.rs |  5 +++++
 av_metrics/src/video/ssim.rs     |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..92c5a2c 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -17,6 +17,9 @@ pub use v_frame::plane::Plane;
 
 trait FrameCompare {
     fn can_compare(&self, other: &Self) -> Result<(), MetricsError>;
+
+    /// Whether any plane has samples, but fewer than `side` per row or column.
+    fn smaller_than(&self, side: usize) -> bool;
 }
 
 impl<T: Pixel> FrameCompare for Frame<T> {
@@ -27,6 +30,13 @@ impl<T: Pixel> FrameCompare for Frame<T> {
 
         Ok(())
     }
+
+    fn smaller_than(&self, side: usize) -> bool {
+        self.planes
+            .iter()
+            .map(|p| &p.cfg)
+            .any(|c| c.width * c.height > 0 && (c.width < side || c.height < side))
+    }
 }
 
 pub(crate) trait PlaneCompare {
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 3609e89..6d1f511 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -84,6 +84,11 @@ impl VideoMetric for PsnrHvs {
         }
 
         frame1.can_compare(frame2)?;
+        if frame1.smaller_than(8) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "PSNR-HVS needs planes of at least 8x8 samples",
+            }));
+        }
 
         let mut y = 0.0;
         let mut u = 0.0;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 93d8333..fd9f718 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -245,6 +245,11 @@ impl VideoMetric for MsSsim {
         }
 
         frame1.can_compare(frame2)?;
+        if frame1.smaller_than(16) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "MS-SSIM needs planes of at least 16x16 samples",
+            }));
+        }
 
         let mut y = 0.0;
         let mut u = 0.0;
-- 
2.43.0


From 707295496f52a9de8318cb48958738581c94a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 13/31] fix: support monochrome video

The Y4M decoder accepts it, but copying into the empty chroma planes
panicked, and so did every metric except PSNR.
---
 av_metrics/src/video/ciede/mod.rs | 19 +++++++++++++----
 av_metrics/src/video/psnr_hvs.rs  |  4 ++++
 av_metrics/src/video/ssim.rs      | 14 ++++++++++++-
 av_metrics_decoders/src/y4m.rs    | 34 ++++++++++++++++---------------
 4 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 723574e..bcc2af8 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -133,6 +133,8 @@ impl VideoMetric for Ciede2000 {
                 reason: "Chroma plane sizes do not match the chroma sampling",
             }));
         }
+        // Monochrome pictures have no chroma rows and are compared as neutral grey.
+        let neutral = vec![T::cast_from(128u16 << (bit_depth - 8)); (y_width + dec.0) >> dec.0];
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
@@ -145,13 +147,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: visible_row(&frame1.planes[0], i),
-                        u: visible_row(&frame1.planes[1], c_row),
-                        v: visible_row(&frame1.planes[2], c_row),
+                        u: chroma_row(&frame1.planes[1], c_row, &neutral),
+                        v: chroma_row(&frame1.planes[2], c_row, &neutral),
                     },
                     FrameRow {
                         y: visible_row(&frame2.planes[0], i),
-                        u: visible_row(&frame2.planes[1], c_row),
-                        v: visible_row(&frame2.planes[2], c_row),
+                        u: chroma_row(&frame2.planes[1], c_row, &neutral),
+                        v: chroma_row(&frame2.planes[2], c_row, &neutral),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -178,6 +180,15 @@ fn visible_row<T: Pixel>(plane: &Plane<T>, row: usize) -> &[T] {
     &plane.data_origin()[row * plane.cfg.stride..][..plane.cfg.width]
 }
 
+/// As `visible_row`, or `neutral` if the plane has no samples.
+fn chroma_row<'a, T: Pixel>(plane: &'a Plane<T>, row: usize, neutral: &'a [T]) -> &'a [T] {
+    if plane.cfg.width == 0 {
+        neutral
+    } else {
+        visible_row(plane, row)
+    }
+}
+
 // Arguments for delta e
 // "Color Image Quality Assessment Based on CIEDE2000"
 // Yang Yang, Jun Ming and Nenghai Yu, 2012
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 6d1f511..23f191b 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -181,6 +181,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     bit_depth: usize,
 ) -> f64 {
     const STEP: usize = 7;
+    if plane1.cfg.width == 0 || plane1.cfg.height == 0 {
+        // The chroma planes of monochrome pictures have nothing to differ in.
+        return 0.0;
+    }
     let mut result = 0.0;
     let mut pixels = 0usize;
     let csf = match plane_idx {
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index fd9f718..eed7f84 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -316,6 +316,10 @@ fn calculate_plane_ssim<T: Pixel>(
     vert_kernel: &[i64],
     horiz_kernel: &[i64],
 ) -> f64 {
+    if plane1.cfg.width == 0 || plane1.cfg.height == 0 {
+        // The chroma planes of monochrome pictures have nothing to differ in.
+        return 1.0;
+    }
     let vec1 = plane_to_vec(plane1);
     let vec2 = plane_to_vec(plane2);
     calculate_plane_ssim_internal(
@@ -416,6 +420,10 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     // They don't add up to 1 due to rounding done in the paper.
     const MS_WEIGHT: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
 
+    if plane1.cfg.width == 0 || plane1.cfg.height == 0 {
+        return 1.0;
+    }
+
     let mut sample_max = (1 << bit_depth) - 1;
     let mut ssim = [0.0; 5];
     let mut cs = [0.0; 5];
@@ -464,7 +472,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
     } else {
         (sigma * (-2.0 * s.log(E)).sqrt()).floor() as usize
     };
-    let kernel_len = if len >= max_len { max_len - 1 } else { len };
+    let kernel_len = if len >= max_len {
+        max_len.saturating_sub(1)
+    } else {
+        len
+    };
     let kernel_size = (kernel_len << 1) | 1;
     let mut kernel = vec![0; kernel_size];
     let mut sum = 0;
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..e3e86d1 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -79,22 +79,24 @@ where
 
             let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
-            convert_chroma_data(
-                &mut f.planes[1],
-                chroma_sample_pos,
-                bit_depth,
-                frame.get_u_plane(),
-                chroma_width * bytes,
-                bytes,
-            );
-            convert_chroma_data(
-                &mut f.planes[2],
-                chroma_sample_pos,
-                bit_depth,
-                frame.get_v_plane(),
-                chroma_width * bytes,
-                bytes,
-            );
+            if chroma_sampling != ChromaSampling::Cs400 {
+                convert_chroma_data(
+                    &mut f.planes[1],
+                    chroma_sample_pos,
+                    bit_depth,
+                    frame.get_u_plane(),
+                    chroma_width * bytes,
+                    bytes,
+                );
+                convert_chroma_data(
+                    &mut f.planes[2],
+                    chroma_sample_pos,
+                    bit_depth,
+                    frame.get_v_plane(),
+                    chroma_width * bytes,
+                    bytes,
+                );
+            }
 
             f
         })
-- 
2.43.0


From 49c4b4d7554d6fb16a8982eb6ac87861761ab8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 14/31] fix: write converted chroma at the plane's origin and
 stride

Rows were written with the visible width as stride from the start of the
allocation, which skews every plane that is padded or whose width is not
a multiple of the alignment. Planes narrower than three samples panicked.
---
 av_metrics/src/video/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..505d1c8 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -129,13 +129,14 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
-    let output_data = &mut plane_data.data;
     let width = plane_data.cfg.width;
     let height = plane_data.cfg.height;
+    let stride = plane_data.cfg.stride;
+    let output_data = plane_data.data_origin_mut();
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
@@ -150,7 +151,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(breakpoint, width.saturating_sub(3));
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From 61f4bc25f44e5ffded9324102ed00b2c949e7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 15/31] fix: copy every chroma row whatever the strides

copy_from_raw_u8 drops the last row when the source ends with it or when
the plane starts at an offset, and spills source padding into the plane.
---
 av_metrics/src/video/decode.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 505d1c8..69bd1ca 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -112,7 +112,19 @@ pub fn convert_chroma_data<T: Pixel>(
 ) {
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
-        plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
+        let width = plane_data.cfg.width;
+        for (y, out_row) in plane_data.rows_iter_mut().enumerate() {
+            let in_row = &source[(y * source_stride)..][..(width * source_bytewidth)];
+            if source_bytewidth == 1 {
+                for (out, sample) in out_row.iter_mut().zip(in_row) {
+                    *out = T::cast_from(*sample);
+                }
+            } else {
+                for (out, sample) in out_row.iter_mut().zip(in_row.chunks_exact(2)) {
+                    *out = T::cast_from(u16::from_le_bytes([sample[0], sample[1]]));
+                }
+            }
+        }
         return;
     }
 
-- 
2.43.0


From 442090727f99511c6526bed0a624bcc654da5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 16/31] fix: stop looking for a frame at the end of the video

read_specific_frame went on reading up to the requested number, for ever
if that is large, and could return a frame of a wrong number.
---
 av_metrics/src/video/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 69bd1ca..380777e 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -24,9 +24,9 @@ pub trait Decoder: Send {
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
         while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
+            let frame = self.read_video_frame()?;
+            if frame_no == frame_number {
+                return Some(frame);
             }
             frame_no += 1;
         }
-- 
2.43.0


From f1e7ddd5f742d6d31398a400b7d9f34e0ec02901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 17/31] fix: read FFmpeg frames with their own line size

FFmpeg aligns its lines, so rows of widths that are not a multiple of the
alignment were skewed.
---
 av_metrics_decoders/src/ffmpeg.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..d6768fd 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -111,21 +111,15 @@ impl FfmpegDecoder {
             self.video_details.chroma_sampling,
             0,
         );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
-            .video_details
-            .chroma_sampling
-            .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -133,7 +127,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0


From c9c837a2df2f4c7c78714397a3f502b9d460acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 18/31] fix: give decoded frames the size of the picture

Frame::new_with_padding rounds the planes up to multiples of eight, so
videos of other sizes were scored with invented samples, and videos whose
sizes round to the same multiple were taken for comparable.
---
 av_metrics_decoders/src/ffmpeg.rs | 13 +++++++++++++
 av_metrics_decoders/src/y4m.rs    | 10 +++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index d6768fd..c2232e3 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -111,6 +111,19 @@ impl FfmpegDecoder {
             self.video_details.chroma_sampling,
             0,
         );
+        let width = self.video_details.width;
+        let height = self.video_details.height;
+        let (chroma_width, chroma_height) = self
+            .video_details
+            .chroma_sampling
+            .get_chroma_dimensions(width, height);
+        // The allocation is rounded up to blocks, the picture is not.
+        f.planes[0].cfg.width = width;
+        f.planes[0].cfg.height = height;
+        for plane in &mut f.planes[1..] {
+            plane.cfg.width = chroma_width;
+            plane.cfg.height = chroma_height;
+        }
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
         f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index e3e86d1..c727f19 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -77,7 +77,15 @@ where
         self.inner.read_frame().ok().map(|frame| {
             let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
 
-            let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
+            let (chroma_width, chroma_height) =
+                chroma_sampling.get_chroma_dimensions(width, height);
+            // The allocation is rounded up to blocks, the picture is not.
+            f.planes[0].cfg.width = width;
+            f.planes[0].cfg.height = height;
+            for plane in &mut f.planes[1..] {
+                plane.cfg.width = chroma_width;
+                plane.cfg.height = chroma_height;
+            }
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
             if chroma_sampling != ChromaSampling::Cs400 {
                 convert_chroma_data(
-- 
2.43.0


From ae35415fede656cadbb5f043cc64009d639b980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 19/31] fix: do not reserve memory for the whole frame limit

The limit may be far larger than the video, up to usize::MAX, and the
reservation then panicked.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 92c5a2c..f01918d 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -194,7 +194,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 6d7695cb9e3562bea4dfb3515b842187bf5a49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 20/31] fix: do not deadlock when a frame pair cannot be
 processed

The receiving end of the channel outlived the loop that drains it, so the
decoding thread blocked for ever on the full channel while the caller
waited for it. The error text no longer holds a dump of both frames, which
was huge and itself panicked for monochrome ones.
---
 av_metrics/src/video/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index f01918d..3bdb16a 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -179,10 +179,7 @@ trait VideoMetric: Send + Sync {
                     if let (Some(frame1), Some(frame2)) = (frame1, frame2) {
                         progress_callback(decoded);
                         if let Err(e) = send.send((frame1, frame2)) {
-                            let (frame1, frame2) = e.into_inner();
-                            return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
-                            ));
+                            return Err(format!("Error sending frame {decoded}: {e}"));
                         }
                     } else {
                         break;
@@ -194,6 +191,9 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
+            // Owned here, so that leaving this closure, by an error or by a panic,
+            // disconnects the channel and the sender cannot block on it for ever.
+            let recv = recv;
             let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
@@ -208,9 +208,7 @@ trait VideoMetric: Send + Sync {
                                     vid_info.bit_depth,
                                     vid_info.chroma_sampling,
                                 )
-                                .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
-                                })
+                                .map_err(|e| e.to_string())
                             })
                             .ok()
                     })
@@ -226,6 +224,7 @@ trait VideoMetric: Send + Sync {
                 }
             }
 
+            drop(recv);
             out = metrics;
 
             (
@@ -238,14 +237,15 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
+                // Sending fails as a consequence of a processing error.
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From 605c415c18c80466977ed900072dfb183cb41783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 21/31] fix: only stay quiet or count frames when asked to

With clap 4 a flag always has a value, so contains_id() was always true
and the program never printed its results.
---
 av_metrics_tool/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..41c82be 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From cd865b5ffe430db4b8a6f5dbd3a5d8c8474a5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 22/31] fix: report errors in writing out the reports

The buffered writers were flushed when dropped, which ignores errors.
---
 av_metrics_tool/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 41c82be..7237e69 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -146,6 +146,7 @@ fn main() -> Result<(), String> {
 
     for writer in writers.iter_mut() {
         report.print(writer)?;
+        writer.flush().map_err(|err| err.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From 83ea22fc1809f8ed71126fb1697c62282bdd8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 23/31] fix: reject Y4M frame sizes that overflow

---
 av_metrics_decoders/src/y4m.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index c727f19..4f640f5 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -26,20 +26,30 @@ fn map_y4m_color_space(color_space: y4m::Colorspace) -> (ChromaSampling, ChromaS
     }
 }
 
+/// Read the header of a y4m stream
+fn open<R: Read + Send>(reader: R) -> Result<Y4MDecoder<R>, String> {
+    let inner = y4m::Decoder::new(reader).map_err(|e| e.to_string())?;
+    // The y4m crate limits the size of a frame, but computes it without
+    // regard to overflow.
+    inner
+        .get_width()
+        .checked_mul(inner.get_height())
+        .and_then(|size| size.checked_mul(3 * inner.get_bytes_per_sample()))
+        .ok_or("Frame size out of range")?;
+    Ok(Y4MDecoder { inner })
+}
+
 /// Initialize a new Y4M decoder for a given input file
 pub fn new_decoder_from_file<P: AsRef<Path>>(
     input: P,
 ) -> Result<Y4MDecoder<BufReader<File>>, String> {
     let file = File::open(input).map_err(|e| e.to_string())?;
-    let inner = y4m::Decoder::new(BufReader::new(file)).map_err(|e| e.to_string())?;
-    Ok(Y4MDecoder { inner })
+    open(BufReader::new(file))
 }
 
 /// Initialize a new Y4M decoder from stdin
 pub fn new_decoder_from_stdin() -> Result<Y4MDecoder<BufReader<Stdin>>, String> {
-    Ok(Y4MDecoder {
-        inner: y4m::Decoder::new(BufReader::new(stdin())).map_err(|e| e.to_string())?,
-    })
+    open(BufReader::new(stdin()))
 }
 
 impl<R> Decoder for Y4MDecoder<R>
-- 
2.43.0


From 5cab2b26f72827c26c58d24528d8c6f96db0d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 24/31] fix: keep file names in one cell of the CSV and
 Markdown reports

---
 av_metrics_tool/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 7237e69..4cf418d 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -10,6 +10,7 @@ use clap::{Arg, Command};
 use console::style;
 use indicatif::{ProgressBar, ProgressStyle};
 use serde::Serialize;
+use std::borrow::Cow;
 use std::error::Error;
 use std::fs::File;
 #[cfg(not(feature = "ffmpeg"))]
@@ -321,7 +322,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "{},{},{},{},{},{},{}",
-                        cmp.filename,
+                        csv_field(&cmp.filename),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -343,7 +344,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "|{}|{}|{}|{}|{}|{}|{}|",
-                        cmp.filename,
+                        cmp.filename.replace('|', "\\|"),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -379,6 +380,15 @@ impl Report<'_> {
     }
 }
 
+/// Quotes a CSV field that would otherwise be read as more than one
+fn csv_field(value: &str) -> Cow<'_, str> {
+    if value.contains([',', '"', '\n', '\r']) {
+        format!("\"{}\"", value.replace('"', "\"\"")).into()
+    } else {
+        value.into()
+    }
+}
+
 enum OutputType {
     JSON(BufWriter<File>),
     CSV(BufWriter<File>),
-- 
2.43.0


From b440fe46a38b33c37e6e403dc6870da1e353e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 25/31] fix: deliver frames of changed size as they are, and
 none of another format, through FFmpeg

---
 av_metrics_decoders/src/ffmpeg.rs | 35 +++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index c2232e3..c586e9c 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -18,10 +18,22 @@ pub struct FfmpegDecoder {
     input_ctx: context::Input,
     decoder: decoder::Video,
     video_details: VideoDetails,
+    pixel_format: format::pixel::Pixel,
     frameno: usize,
     stream_index: usize,
     end_of_stream: bool,
     eof_sent: bool,
+    format_changed: bool,
+}
+
+/// The sample layout of a pixel format, without regard to the sample range
+fn sample_layout(format: format::pixel::Pixel) -> format::pixel::Pixel {
+    match format {
+        format::pixel::Pixel::YUVJ420P => format::pixel::Pixel::YUV420P,
+        format::pixel::Pixel::YUVJ422P => format::pixel::Pixel::YUV422P,
+        format::pixel::Pixel::YUVJ444P => format::pixel::Pixel::YUV444P,
+        format => format,
+    }
 }
 
 impl FfmpegDecoder {
@@ -95,24 +107,23 @@ impl FfmpegDecoder {
                 ),
                 luma_padding: 0,
             },
+            pixel_format: decoder.format(),
             decoder,
             input_ctx,
             frameno: 0,
             stream_index,
             end_of_stream: false,
             eof_sent: false,
+            format_changed: false,
         })
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
-            self.video_details.width,
-            self.video_details.height,
-            self.video_details.chroma_sampling,
-            0,
-        );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
+        // The size may change within a stream.
+        let width = decoded.width() as usize;
+        let height = decoded.height() as usize;
+        let mut f: Frame<T> =
+            Frame::new_with_padding(width, height, self.video_details.chroma_sampling, 0);
         let (chroma_width, chroma_height) = self
             .video_details
             .chroma_sampling
@@ -161,7 +172,7 @@ impl Decoder for FfmpegDecoder {
         // but noooooo.
         //
         // Reference: https://ffmpeg.org/doxygen/trunk/api-h264-test_8c_source.html#l00110
-        loop {
+        while !self.format_changed {
             // This iterator is actually really stupid... it doesn't reset itself after each `new`.
             // But that solves our lifetime hell issues, ironically.
             let packet = self
@@ -197,6 +208,11 @@ impl Decoder for FfmpegDecoder {
                 }
 
                 if self.decoder.receive_frame(&mut decoded).is_ok() {
+                    // Samples of another format than the announced one cannot be delivered.
+                    if sample_layout(decoded.format()) != sample_layout(self.pixel_format) {
+                        self.format_changed = true;
+                        break;
+                    }
                     let f = self.decode_frame(&decoded);
                     self.frameno += 1;
                     return Some(f);
@@ -205,6 +221,7 @@ impl Decoder for FfmpegDecoder {
                 }
             }
         }
+        None
     }
 
     fn get_bit_depth(&self) -> usize {
-- 
2.43.0


From 82586a7992d4b02a119bb4a544391e440a1bfd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 26/31] fix: end a video FFmpeg cannot read any further instead
 of trying for ever

---
 av_metrics_decoders/src/ffmpeg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index c586e9c..53d6f67 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -10,6 +10,9 @@ use ffmpeg::{format, frame};
 use av_metrics::video::decode::*;
 use av_metrics::video::*;
 
+/// How many failures in a row to read a packet make the end of a damaged file
+const MAX_READ_ERRORS: usize = 100;
+
 /// An interface that is used for decoding a video stream using FFMpeg
 ///
 /// There have been desync issue reported with this decoder
@@ -178,8 +181,8 @@ impl Decoder for FfmpegDecoder {
             let packet = self
                 .input_ctx
                 .packets()
-                .filter_map(Result::ok)
-                .next()
+                .take(MAX_READ_ERRORS)
+                .find_map(Result::ok)
                 .map(|(_, packet)| packet);
 
             let mut packet = if let Some(packet) = packet {
-- 
2.43.0


From 327e97b7d9752f0e387feae6bd3a8fc4c4d683fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 27/31] fix: take every frame of a packet from FFmpeg before
 the next packet

---
 av_metrics_decoders/src/ffmpeg.rs | 80 ++++++++++++++-----------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 53d6f67..44a9294 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -2,10 +2,11 @@ extern crate ffmpeg_the_third as ffmpeg;
 
 use std::path::Path;
 
-use ffmpeg::codec::{decoder, packet};
+use ffmpeg::codec::decoder;
 use ffmpeg::format::context;
 use ffmpeg::media::Type;
-use ffmpeg::{format, frame};
+use ffmpeg::util::error::EAGAIN;
+use ffmpeg::{format, frame, Error};
 
 use av_metrics::video::decode::*;
 use av_metrics::video::*;
@@ -24,8 +25,6 @@ pub struct FfmpegDecoder {
     pixel_format: format::pixel::Pixel,
     frameno: usize,
     stream_index: usize,
-    end_of_stream: bool,
-    eof_sent: bool,
     format_changed: bool,
 }
 
@@ -115,12 +114,32 @@ impl FfmpegDecoder {
             input_ctx,
             frameno: 0,
             stream_index,
-            end_of_stream: false,
-            eof_sent: false,
             format_changed: false,
         })
     }
 
+    /// Gives the next packet of the video stream, or else the end of the stream, to the decoder
+    fn send_next_packet(&mut self) {
+        // This iterator is actually really stupid... it doesn't reset itself after each `new`.
+        // But that solves our lifetime hell issues, ironically.
+        let packet = self
+            .input_ctx
+            .packets()
+            .take(MAX_READ_ERRORS)
+            .find_map(Result::ok)
+            .map(|(_, packet)| packet);
+
+        if let Some(mut packet) = packet {
+            if packet.stream() == self.stream_index {
+                packet.set_pts(Some(self.frameno as i64));
+                packet.set_dts(Some(self.frameno as i64));
+                let _ = self.decoder.send_packet(&packet);
+            }
+        } else {
+            let _ = self.decoder.send_eof();
+        }
+    }
+
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
         // The size may change within a stream.
         let width = decoded.width() as usize;
@@ -176,41 +195,14 @@ impl Decoder for FfmpegDecoder {
         //
         // Reference: https://ffmpeg.org/doxygen/trunk/api-h264-test_8c_source.html#l00110
         while !self.format_changed {
-            // This iterator is actually really stupid... it doesn't reset itself after each `new`.
-            // But that solves our lifetime hell issues, ironically.
-            let packet = self
-                .input_ctx
-                .packets()
-                .take(MAX_READ_ERRORS)
-                .find_map(Result::ok)
-                .map(|(_, packet)| packet);
-
-            let mut packet = if let Some(packet) = packet {
-                packet
-            } else {
-                self.end_of_stream = true;
-                packet::Packet::empty()
-            };
-
-            if self.end_of_stream && !self.eof_sent {
-                let _ = self.decoder.send_eof();
-                self.eof_sent = true;
-            }
-
-            if self.end_of_stream || packet.stream() == self.stream_index {
-                let mut decoded = frame::Video::new(
-                    self.decoder.format(),
-                    self.video_details.width as u32,
-                    self.video_details.height as u32,
-                );
-                packet.set_pts(Some(self.frameno as i64));
-                packet.set_dts(Some(self.frameno as i64));
-
-                if !self.end_of_stream {
-                    let _ = self.decoder.send_packet(&packet);
-                }
-
-                if self.decoder.receive_frame(&mut decoded).is_ok() {
+            let mut decoded = frame::Video::new(
+                self.decoder.format(),
+                self.video_details.width as u32,
+                self.video_details.height as u32,
+            );
+            // A packet may hold several frames: a new one is taken only when the decoder asks for it.
+            match self.decoder.receive_frame(&mut decoded) {
+                Ok(()) => {
                     // Samples of another format than the announced one cannot be delivered.
                     if sample_layout(decoded.format()) != sample_layout(self.pixel_format) {
                         self.format_changed = true;
@@ -219,9 +211,11 @@ impl Decoder for FfmpegDecoder {
                     let f = self.decode_frame(&decoded);
                     self.frameno += 1;
                     return Some(f);
-                } else if self.end_of_stream {
-                    return None;
                 }
+                Err(Error::Other { errno: EAGAIN }) => self.send_next_packet(),
+                Err(Error::Eof) => break,
+                // The frame could not be decoded, the next ones may be.
+                Err(_) => {}
             }
         }
         None
-- 
2.43.0


From 6106a84c54a55a2056e1446fcc20a3e9d55663fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 28/31] fix: document the VapourSynth plugins, so that the
 feature builds

---
 av_metrics_decoders/src/vapoursynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index f4ec911..b6e01c9 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -237,9 +237,12 @@ impl Decoder for VapoursynthDecoder {
     }
 }
 
+/// The VapourSynth plugin that loads a video file
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub enum VapoursynthDecoderPlugin {
+    /// `LSmashSource`
     #[default]
     LSmash,
+    /// `BestSource`
     BestSource,
 }
-- 
2.43.0


From e30c55d8ef29b79f07df777e914f9231b075b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 29/31] fix: give VapourSynth frames the size of the picture

Frame::new_with_padding rounds the planes up to multiples of eight, so
clips of other sizes were scored with invented samples.
---
 av_metrics_decoders/src/vapoursynth.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index b6e01c9..9288832 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -133,6 +133,16 @@ impl Decoder for VapoursynthDecoder {
             details.chroma_sampling,
             0,
         );
+        let (chroma_width, chroma_height) = details
+            .chroma_sampling
+            .get_chroma_dimensions(details.width, details.height);
+        // The allocation is rounded up to blocks, the picture is not.
+        f.planes[0].cfg.width = details.width;
+        f.planes[0].cfg.height = details.height;
+        for plane in &mut f.planes[1..] {
+            plane.cfg.width = chroma_width;
+            plane.cfg.height = chroma_height;
+        }
 
         {
             let frame = self.get_node().unwrap().get_frame(self.cur_frame);
-- 
2.43.0


From 9d8ad889deac002031987f386d897059122f73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 30/31] fix: report missing video files in the VapourSynth
 decoder instead of panicking

---
 av_metrics_decoders/src/vapoursynth.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 9288832..cd73dc7 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -31,8 +31,7 @@ impl VapoursynthDecoder {
         plugin: VapoursynthDecoderPlugin,
     ) -> Result<Self> {
         let escaped_filename = filename
-            .canonicalize()
-            .unwrap()
+            .canonicalize()?
             .to_string_lossy()
             .trim_start_matches(r"\\?\")
             .replace('\\', "\\\\")
-- 
2.43.0


From 09ed3bd908e113da4d4c86f17f8e5be87d1cee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 31/31] fix: refuse VapourSynth clips the decoder cannot
 deliver

Clips with other chroma subsampling were read as 4:2:2 or 4:2:0, and
packed, deeper or variable ones panicked after they had been opened.
---
 av_metrics_decoders/src/vapoursynth.rs | 34 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index cd73dc7..31dbdf2 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -58,11 +58,7 @@ clip.set_output(0)
         );
         let env = Environment::from_script(&script)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
-        ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
-            "Currently only integer input is supported"
-        );
+        this.ensure_supported()?;
         Ok(this)
     }
 
@@ -70,12 +66,34 @@ clip.set_output(0)
     pub fn new_from_script(filename: &Path) -> Result<Self> {
         let env = Environment::from_file(filename, EvalFlags::SetWorkingDir)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
+        this.ensure_supported()?;
+        Ok(this)
+    }
+
+    fn ensure_supported(&self) -> Result<()> {
+        let format = self.get_format()?;
+        self.get_resolution()?;
+        self.get_frame_rate()?;
         ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
+            format.sample_type() == SampleType::Integer,
             "Currently only integer input is supported"
         );
-        Ok(this)
+        ensure!(
+            format.color_family() != ColorFamily::Compat,
+            "Packed formats are not supported"
+        );
+        ensure!(
+            format.bits_per_sample() <= 16,
+            "More than 16 bits per sample are not supported"
+        );
+        ensure!(
+            matches!(
+                (format.sub_sampling_w(), format.sub_sampling_h()),
+                (0, 0) | (1, 0) | (1, 1)
+            ),
+            "Currently only 4:2:0, 4:2:2 and 4:4:4 chroma subsampling is supported"
+        );
+        Ok(())
     }
 
     fn get_node(&self) -> Result<Node<'_>> {
-- 
2.43.0

