From 067906a51a1f624ad187740dcdc5db265839459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 01/30] fix: disconnect the frame channel before joining the
 decoding thread

When the metric of a frame failed, the receiving half of the bounded
channel stayed alive while the decoding thread was joined, so that thread
blocked forever in send() and the comparison never returned. The failure
of the metric is now also reported rather than the send error it causes.
---
 av_metrics/src/video/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..e62c41e 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -218,6 +218,10 @@ trait VideoMetric: Send + Sync {
 
             out = metrics;
 
+            // Disconnect the channel, so that the sender cannot block forever on a full
+            // channel when the processing loop was left before the end of the videos.
+            drop(recv);
+
             (
                 send_result
                     .join()
@@ -228,14 +232,14 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From e4eaa86bdce354841bf729036b7b473b1653d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 02/30] fix: do not allocate results upfront for the whole
 frame limit

A large frame limit, such as usize::MAX, aborted with a capacity overflow
however short the videos were.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index e62c41e..d6c562d 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -184,7 +184,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 0d8a49db3d7d1920f1e95fc5dfbf855d8ce66fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 03/30] fix: honour the stride and origin of planes when
 realigning chroma

The realigned rows were written one after the other, so that every plane
whose stride differs from its width came out scrambled.
---
 av_metrics/src/video/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..270b5af 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -129,13 +129,14 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
-    let output_data = &mut plane_data.data;
+    let stride = plane_data.cfg.stride;
     let width = plane_data.cfg.width;
     let height = plane_data.cfg.height;
+    let output_data = plane_data.data_origin_mut();
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
-- 
2.43.0


From a249c2c8ad8bf1eedbda29d68fc63e3a303f9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 04/30] fix: measure the visible samples of a plane only

PSNR, SSIM, MS-SSIM, PSNR-HVS and CIEDE2000 walked the raw buffer of a plane
as if its stride was equal to its width and its origin was zero. For any
other plane the scores depended on the padding samples and on rows which
had been cut at the wrong place.
---
 av_metrics/src/video/ciede/mod.rs | 12 +++---------
 av_metrics/src/video/psnr.rs      |  6 +++---
 av_metrics/src/video/psnr_hvs.rs  |  6 ++++--
 av_metrics/src/video/ssim.rs      |  6 +++++-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..39d1315 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,20 +117,14 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
-            let c_end = c_start + c_width;
+            let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
+            let c_range = frame1.planes[1].row_range_cropped(0, (i >> dec.1) as isize);
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..7dac9f7 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -187,9 +187,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
-        .iter()
-        .zip(plane2.data.iter())
+        .rows_iter()
+        .flatten()
+        .zip(plane2.rows_iter().flatten())
         .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..bdd0f34 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -212,6 +212,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
     let stride = plane1.cfg.stride;
+    let data1 = plane1.data_origin();
+    let data2 = plane2.data_origin();
     let mut p1 = [0i16; 8 * 8];
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
@@ -233,8 +235,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..310675c 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input
+        .rows_iter()
+        .flatten()
+        .map(|pix| u32::cast_from(*pix))
+        .collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From 55d6761337895ca2eeebea1d84334143489f1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 05/30] fix: realign chroma rows which are narrower than five
 samples

The bounds of the unclamped part of the filter were computed with
`width - 3`, which underflows, or overlaps the left edge, for such rows.
---
 av_metrics/src/video/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 270b5af..77fde37 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -151,7 +151,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(width.saturating_sub(3), breakpoint);
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From 0bdd7bbd24581242cc96a7c615ef539782756e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 06/30] fix: support monochrome videos

Reading a monochrome y4m file panicked in the decoder, because its chroma
planes have no samples to copy, and the SSIM, MS-SSIM and PSNR-HVS of such
planes were undefined. They now count as identical, with the weight of zero
which they already had. CIEDE2000, which is not defined without chroma and
reported the score of identical videos, rejects them.
---
 av_metrics/src/video/ciede/mod.rs |  6 ++++++
 av_metrics/src/video/decode.rs    |  5 +++++
 av_metrics/src/video/psnr_hvs.rs  |  5 +++++
 av_metrics/src/video/ssim.rs      | 12 +++++++++++-
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 39d1315..6a4da64 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -114,6 +114,12 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
+        if chroma_sampling == ChromaSampling::Cs400 {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 cannot be computed on monochrome videos",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 77fde37..ba88bf8 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -110,6 +110,11 @@ pub fn convert_chroma_data<T: Pixel>(
     source_stride: usize,
     source_bytewidth: usize,
 ) {
+    if plane_data.data.is_empty() {
+        // Monochrome videos have no chroma samples
+        return;
+    }
+
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
         plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index bdd0f34..cac89a6 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -175,6 +175,11 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     plane_idx: usize,
     bit_depth: usize,
 ) -> f64 {
+    if plane1.data.is_empty() {
+        // The chroma planes of monochrome videos never differ
+        return 0.0;
+    }
+
     const STEP: usize = 7;
     let mut result = 0.0;
     let mut pixels = 0usize;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 310675c..453676a 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -311,6 +311,11 @@ fn calculate_plane_ssim<T: Pixel>(
     vert_kernel: &[i64],
     horiz_kernel: &[i64],
 ) -> f64 {
+    if plane1.data.is_empty() {
+        // The chroma planes of monochrome videos never differ
+        return 1.0;
+    }
+
     let vec1 = plane_to_vec(plane1);
     let vec2 = plane_to_vec(plane2);
     calculate_plane_ssim_internal(
@@ -409,6 +414,11 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     // They don't add up to 1 due to rounding done in the paper.
     const MS_WEIGHT: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
 
+    if plane1.data.is_empty() {
+        // The chroma planes of monochrome videos never differ
+        return 1.0;
+    }
+
     let mut sample_max = (1 << bit_depth) - 1;
     let mut ssim = [0.0; 5];
     let mut cs = [0.0; 5];
@@ -456,7 +466,7 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
     } else {
         (sigma * (-2.0 * s.log(E)).sqrt()).floor() as usize
     };
-    let kernel_len = if len >= max_len { max_len - 1 } else { len };
+    let kernel_len = cmp::min(len, max_len.saturating_sub(1));
     let kernel_size = (kernel_len << 1) | 1;
     let mut kernel = vec![0; kernel_size];
     let mut sum = 0;
-- 
2.43.0


From ce0c3c59ced61a44324ef57c9a2d9309a7a5b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 07/30] fix: reject bit depths which CIEDE2000 does not support

Any bit depth other than 8, 10 and 12 hit an unreachable!().
---
 av_metrics/src/video/ciede/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 6a4da64..7b55a7a 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -120,6 +120,12 @@ impl VideoMetric for Ciede2000 {
             }));
         }
 
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 supports bit depths of 8, 10 and 12 only",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From 92bcf3c1d041f44547dc74e27c2b27795f60f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 08/30] fix: reject planes which are too small for PSNR-HVS

A plane smaller than one 8x8 block made the computation of the block range
underflow.
---
 av_metrics/src/video/psnr_hvs.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index cac89a6..acef5a2 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -85,6 +85,16 @@ impl VideoMetric for PsnrHvs {
 
         frame1.can_compare(frame2)?;
 
+        if frame1
+            .planes
+            .iter()
+            .any(|p| !p.data.is_empty() && (p.cfg.width < 8 || p.cfg.height < 8))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "PSNR-HVS requires planes of at least 8x8 samples",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
-- 
2.43.0


From b36edbc83f98e29a10a7dd53c45b2ec49095dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 09/30] fix: reject planes which are too small for MS-SSIM

The coarsest of its five scales has no samples when a side is shorter than
16 samples, which made the score NaN.
---
 av_metrics/src/video/ssim.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 453676a..ac5c1d5 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -246,6 +246,16 @@ impl VideoMetric for MsSsim {
 
         frame1.can_compare(frame2)?;
 
+        if frame1
+            .planes
+            .iter()
+            .any(|p| !p.data.is_empty() && (p.cfg.width < 16 || p.cfg.height < 16))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "MSSSIM requires planes of at least 16x16 samples",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
-- 
2.43.0


From 91a4c7895d35072c6534bfea7b887dd15ca8668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 10/30] fix: keep SSIM and MS-SSIM from becoming NaN

Rounding can take the SSIM of identical planes above 1, and the contrast
terms of MS-SSIM are negative for anticorrelated planes. Both made the
score NaN, the former through a logarithm and the latter through powf().
---
 av_metrics/src/video/ssim.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index ac5c1d5..0f3122a 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -459,9 +459,10 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     cs.iter()
         .zip(MS_WEIGHT.iter())
         .take(4)
-        .map(|(cs, weight)| cs.powf(*weight))
+        // Anticorrelated planes have negative scores, whose fractional powers are undefined
+        .map(|(cs, weight)| cs.max(0.0).powf(*weight))
         .fold(1.0, |acc, val| acc * val)
-        * ssim[4].powf(MS_WEIGHT[4])
+        * ssim[4].max(0.0).powf(MS_WEIGHT[4])
 }
 
 fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Vec<i64> {
@@ -523,5 +524,7 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    // Rounding may take the score of identical planes slightly above the weight
+    let distortion = if score > weight { 0.0 } else { weight - score };
+    10.0 * (weight.log10() - distortion.log10())
 }
-- 
2.43.0


From 789d612349354a562c221bb89e5ba652f01af1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 11/30] fix: cap PSNR and APSNR at 100 as documented

Only identical frames were mapped to 100. Frames which differ by a few
samples scored higher than identical ones.
---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 7dac9f7..4b55b0a 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From f105950ad8668106ed8476b80f6bf65f19ffb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 12/30] fix: honour the absence of --quiet and --frames

contains_id() is true for every flag, as flags have a default value, so
that nothing was ever printed to stdout.
---
 av_metrics_tool/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..0ade9c1 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -6,7 +6,7 @@ use av_metrics::video::*;
 use av_metrics_decoders::FfmpegDecoder;
 #[cfg(not(feature = "ffmpeg"))]
 use av_metrics_decoders::Y4MDecoder;
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 use console::style;
 use indicatif::{ProgressBar, ProgressStyle};
 use serde::Serialize;
@@ -74,13 +74,13 @@ fn main() -> Result<(), String> {
             Arg::new("QUIET")
                 .help("Do not output to stdout")
                 .long("quiet")
-                .num_args(0),
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("FRAMES")
                 .help("Count the number of frames in a file")
                 .long("frames")
-                .num_args(0),
+                .action(ArgAction::SetTrue),
         )
         .get_matches();
     let base = cli.get_one::<String>("BASE").unwrap();
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 9c4e345c3fb0f360366ad11b7b6dd15327003282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 13/30] fix: report failures to write the last part of a report

The buffered end of each report was written when its writer was dropped,
where errors are ignored, so that a report could be missing or truncated
although the tool had succeeded.
---
 av_metrics_tool/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 0ade9c1..f82bb31 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -146,6 +146,7 @@ fn main() -> Result<(), String> {
 
     for writer in writers.iter_mut() {
         report.print(writer)?;
+        writer.flush().map_err(|err| err.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From a94b02f29d058cfc76a4155e7df667905d886c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 14/30] fix: do not count the alignment of planes as part of
 the picture

Frame::new_with_padding rounds the dimensions of the planes up. For any
video whose dimensions are not multiples of 8 the metrics were diluted by
samples which are not in the video, realigning its chroma read past the end
of the rows, and two videos of different resolutions could be compared.
---
 av_metrics_decoders/src/ffmpeg.rs |  1 +
 av_metrics_decoders/src/lib.rs    | 25 +++++++++++++++++++++++++
 av_metrics_decoders/src/y4m.rs    |  1 +
 3 files changed, 27 insertions(+)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..9fe6551 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -113,6 +113,7 @@ impl FfmpegDecoder {
         );
         let width = self.video_details.width;
         let height = self.video_details.height;
+        crate::crop_frame(&mut f, width, height, self.video_details.chroma_sampling);
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
         let (chroma_width, _) = self
diff --git a/av_metrics_decoders/src/lib.rs b/av_metrics_decoders/src/lib.rs
index 42d6655..93f549a 100644
--- a/av_metrics_decoders/src/lib.rs
+++ b/av_metrics_decoders/src/lib.rs
@@ -35,3 +35,28 @@ pub use crate::vapoursynth::{VapoursynthDecoder, VapoursynthDecoderPlugin};
 
 pub use av_metrics::video::decode::{Decoder, VideoDetails};
 pub use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Plane};
+
+/// Excludes the samples by which `Frame::new_with_padding` aligns the planes from the picture.
+#[cfg(any(
+    feature = "y4m",
+    feature = "ffmpeg",
+    feature = "ffmpeg_static",
+    feature = "ffmpeg_build"
+))]
+fn crop_frame<T: Pixel>(
+    frame: &mut Frame<T>,
+    width: usize,
+    height: usize,
+    chroma_sampling: ChromaSampling,
+) {
+    let (chroma_width, chroma_height) = chroma_sampling.get_chroma_dimensions(width, height);
+    let dimensions = [
+        (width, height),
+        (chroma_width, chroma_height),
+        (chroma_width, chroma_height),
+    ];
+    for (plane, (width, height)) in frame.planes.iter_mut().zip(dimensions) {
+        plane.cfg.width = width;
+        plane.cfg.height = height;
+    }
+}
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..0a10aba 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -76,6 +76,7 @@ where
         let bytes = self.inner.get_bytes_per_sample();
         self.inner.read_frame().ok().map(|frame| {
             let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+            crate::crop_frame(&mut f, width, height, chroma_sampling);
 
             let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
-- 
2.43.0


From 26f042067eb66b49b4f535e40d6aa53b8fbb8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 15/30] fix: honour the line size of ffmpeg frames

ffmpeg aligns the lines of the planes which it decodes, so that every video
whose planes are not wide multiples of that alignment came out scrambled.
---
 av_metrics_decoders/src/ffmpeg.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 9fe6551..01ceb39 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -116,17 +116,13 @@ impl FfmpegDecoder {
         crate::crop_frame(&mut f, width, height, self.video_details.chroma_sampling);
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
-            .video_details
-            .chroma_sampling
-            .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -134,7 +130,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0


From 0ac2c41ad476309a57d47a1795c82a40c4a0f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 16/30] fix: escape the file names in CSV and Markdown reports

The name of a video may contain the separators of the columns.
---
 av_metrics_tool/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index f82bb31..d4d4991 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -321,7 +321,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "{},{},{},{},{},{},{}",
-                        cmp.filename,
+                        csv_field(&cmp.filename),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -343,7 +343,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "|{}|{}|{}|{}|{}|{}|{}|",
-                        cmp.filename,
+                        cmp.filename.replace('|', "\\|"),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -379,6 +379,15 @@ impl Report<'_> {
     }
 }
 
+/// Quotes a value which would otherwise break the columns of a CSV report.
+fn csv_field(value: &str) -> String {
+    if value.contains([',', '"', '\n', '\r']) {
+        format!("\"{}\"", value.replace('"', "\"\""))
+    } else {
+        value.to_owned()
+    }
+}
+
 enum OutputType {
     JSON(BufWriter<File>),
     CSV(BufWriter<File>),
-- 
2.43.0


From da2ba24ecd3535f614a0a5fc158e1ea6d75d847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 17/30] fix: do not panic when describing monochrome frames in
 errors

---
 av_metrics/src/video/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index d6c562d..50a78a8 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -96,6 +96,15 @@ pub struct PlanarMetrics {
     pub avg: f64,
 }
 
+/// Describes a frame in an error message.
+///
+/// Printing the planes themselves would panic for those without any samples, which are the
+/// chroma planes of monochrome videos.
+fn describe_frame<T: Pixel>(frame: &Frame<T>) -> String {
+    let configs: Vec<_> = frame.planes.iter().map(|plane| &plane.cfg).collect();
+    format!("Frame {{ planes: {configs:?} }}")
+}
+
 trait VideoMetric: Send + Sync {
     type FrameResult: Send + Sync;
     type VideoResult: Send + Sync;
@@ -171,7 +180,9 @@ trait VideoMetric: Send + Sync {
                         if let Err(e) = send.send((frame1, frame2)) {
                             let (frame1, frame2) = e.into_inner();
                             return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
+                                "Error sending\n\nframe1: {}\n\nframe2: {}",
+                                describe_frame(&frame1),
+                                describe_frame(&frame2)
                             ));
                         }
                     } else {
@@ -199,7 +210,11 @@ trait VideoMetric: Send + Sync {
                                     vid_info.chroma_sampling,
                                 )
                                 .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
+                                    format!(
+                                        "\n\n{e} on\n\nframe1: {}\n\nand\n\nframe2: {}",
+                                        describe_frame(&f1),
+                                        describe_frame(&f2)
+                                    )
                                 })
                             })
                             .ok()
-- 
2.43.0


From 1a9e13215512435734e5cdbb9c7cf57e1e9d5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 18/30] fix: end read_specific_frame at the end of the video

---
 av_metrics/src/video/decode.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index ba88bf8..9b8a2f8 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -23,14 +23,14 @@ pub trait Decoder: Send {
     /// Expected to return `Err` if the frame is not found.
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
-        while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
+        loop {
+            // There is nothing behind the end of the video
+            let frame = self.read_video_frame()?;
+            if frame_no == frame_number {
+                return Some(frame);
             }
             frame_no += 1;
         }
-        None
     }
     /// Get the bit depth of the video.
     fn get_bit_depth(&self) -> usize;
-- 
2.43.0


From 62466b64cadf8c4c15dc03a7a3e04fa31c4d1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 19/30] fix: deliver nothing behind a y4m frame which could not
 be read

---
 av_metrics_decoders/src/y4m.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 0a10aba..066f272 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -7,6 +7,8 @@ use std::path::Path;
 /// A decoder for a y4m input stream
 pub struct Y4MDecoder<R: Read + Send> {
     inner: y4m::Decoder<R>,
+    /// Whether a frame could not be read: what follows is not aligned to frames
+    ended: bool,
 }
 
 /// Function to map y4m color space
@@ -32,13 +34,17 @@ pub fn new_decoder_from_file<P: AsRef<Path>>(
 ) -> Result<Y4MDecoder<BufReader<File>>, String> {
     let file = File::open(input).map_err(|e| e.to_string())?;
     let inner = y4m::Decoder::new(BufReader::new(file)).map_err(|e| e.to_string())?;
-    Ok(Y4MDecoder { inner })
+    Ok(Y4MDecoder {
+        inner,
+        ended: false,
+    })
 }
 
 /// Initialize a new Y4M decoder from stdin
 pub fn new_decoder_from_stdin() -> Result<Y4MDecoder<BufReader<Stdin>>, String> {
     Ok(Y4MDecoder {
         inner: y4m::Decoder::new(BufReader::new(stdin())).map_err(|e| e.to_string())?,
+        ended: false,
     })
 }
 
@@ -68,13 +74,18 @@ where
     }
 
     fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
+        if self.ended {
+            return None;
+        }
         let bit_depth = self.inner.get_bit_depth();
         let color_space = self.inner.get_colorspace();
         let (chroma_sampling, chroma_sample_pos) = map_y4m_color_space(color_space);
         let width = self.inner.get_width();
         let height = self.inner.get_height();
         let bytes = self.inner.get_bytes_per_sample();
-        self.inner.read_frame().ok().map(|frame| {
+        let frame = self.inner.read_frame().ok();
+        self.ended = frame.is_none();
+        frame.map(|frame| {
             let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
             crate::crop_frame(&mut f, width, height, chroma_sampling);
 
-- 
2.43.0


From a1d63ce30a669748f669554bf368ebdc2b1ca862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 20/30] fix: count frames of videos whose bit depths differ

With --frames on a terminal, comparing an 8 bit video with one of a
higher bit depth panicked while the frames were counted.
---
 av_metrics_tool/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index d4d4991..91a0ae1 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -294,7 +294,7 @@ fn total_frames<P: AsRef<Path>>(input1: P, input2: P) -> u64 {
         get_decoder(input1).expect("Failed to open input file 1 for counting frames");
     let mut decoder2 =
         get_decoder(input2).expect("Failed to open input file 2 for counting frames");
-    if decoder1.get_bit_depth() > 8 {
+    if decoder1.get_bit_depth() > 8 || decoder2.get_bit_depth() > 8 {
         count_frames::<_, u16>(&mut decoder1, &mut decoder2)
     } else {
         count_frames::<_, u8>(&mut decoder1, &mut decoder2)
-- 
2.43.0


From 47f86a6f47337685fe993978704af4a4539baa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 21/30] fix: line ends in file names broke Markdown reports

A line end in a file name ended the row of the table.
---
 av_metrics_tool/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 91a0ae1..fcb0eb5 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -343,7 +343,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "|{}|{}|{}|{}|{}|{}|{}|",
-                        cmp.filename.replace('|', "\\|"),
+                        markdown_cell(&cmp.filename),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
@@ -388,6 +388,11 @@ fn csv_field(value: &str) -> String {
     }
 }
 
+/// Escapes a value which would otherwise break the table of a Markdown report.
+fn markdown_cell(value: &str) -> String {
+    value.replace('|', "\\|").replace(['\n', '\r'], " ")
+}
+
 enum OutputType {
     JSON(BufWriter<File>),
     CSV(BufWriter<File>),
-- 
2.43.0


From 638f415876aa358dad0d958214ec758c070ce46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 22/30] fix: the vapoursynth feature did not compile (missing
 documentation)

---
 av_metrics_decoders/src/vapoursynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index f4ec911..c873408 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -237,9 +237,12 @@ impl Decoder for VapoursynthDecoder {
     }
 }
 
+/// The Vapoursynth plugin which decodes a video file
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub enum VapoursynthDecoderPlugin {
+    /// `LSmashSource`
     #[default]
     LSmash,
+    /// `BestSource`
     BestSource,
 }
-- 
2.43.0


From 289749f055ded4f189c9c4e4f489ac78a1d88733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 23/30] fix: frames of the vapoursynth decoder counted the
 alignment of a plane as part of the picture

---
 av_metrics_decoders/src/lib.rs         | 3 ++-
 av_metrics_decoders/src/vapoursynth.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/av_metrics_decoders/src/lib.rs b/av_metrics_decoders/src/lib.rs
index 93f549a..7f04c6a 100644
--- a/av_metrics_decoders/src/lib.rs
+++ b/av_metrics_decoders/src/lib.rs
@@ -41,7 +41,8 @@ pub use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Pla
     feature = "y4m",
     feature = "ffmpeg",
     feature = "ffmpeg_static",
-    feature = "ffmpeg_build"
+    feature = "ffmpeg_build",
+    feature = "vapoursynth"
 ))]
 fn crop_frame<T: Pixel>(
     frame: &mut Frame<T>,
diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index c873408..8354882 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -204,6 +204,12 @@ impl Decoder for VapoursynthDecoder {
         }
 
         self.cur_frame += 1;
+        crate::crop_frame(
+            &mut f,
+            details.width,
+            details.height,
+            details.chroma_sampling,
+        );
         Some(f)
     }
 
-- 
2.43.0


From 1cf423c8d6cbf92fac6d67613c37caa6576f77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 24/30] fix: vapoursynth: missing files panicked, and line ends
 in file names broke the script

---
 av_metrics_decoders/src/vapoursynth.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 8354882..3cf6b33 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -31,12 +31,13 @@ impl VapoursynthDecoder {
         plugin: VapoursynthDecoderPlugin,
     ) -> Result<Self> {
         let escaped_filename = filename
-            .canonicalize()
-            .unwrap()
+            .canonicalize()?
             .to_string_lossy()
             .trim_start_matches(r"\\?\")
             .replace('\\', "\\\\")
-            .replace('"', "\\\"");
+            .replace('"', "\\\"")
+            .replace('\n', "\\n")
+            .replace('\r', "\\r");
         let script = format!(
             r#"
 import vapoursynth as vs
-- 
2.43.0


From 114d8c664470fc10a0e666fb8d8491a0e4345eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 25/30] fix: vapoursynth: unsupported clips panicked or were
 misread instead of being refused

---
 av_metrics_decoders/src/vapoursynth.rs | 48 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index 3cf6b33..8d0a59f 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -59,24 +59,30 @@ clip.set_output(0)
             }
         );
         let env = Environment::from_script(&script)?;
-        let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
-        ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
-            "Currently only integer input is supported"
-        );
-        Ok(this)
+        Self::new(env)
     }
 
     /// Loads a `.vpy` script
     pub fn new_from_script(filename: &Path) -> Result<Self> {
         let env = Environment::from_file(filename, EvalFlags::SetWorkingDir)?;
+        Self::new(env)
+    }
+
+    fn new(env: Environment) -> Result<Self> {
         let this = Self { env, cur_frame: 0 };
         this.get_node()?;
+        let format = this.get_format()?;
         ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
+            format.sample_type() == SampleType::Integer,
             "Currently only integer input is supported"
         );
+        ensure!(
+            format.bits_per_sample() <= 16,
+            "Bit depths above 16 are not supported"
+        );
+        this.get_chroma_sampling()?;
+        this.get_resolution()?;
+        this.get_frame_rate()?;
         Ok(this)
     }
 
@@ -100,6 +106,21 @@ clip.set_output(0)
         }
     }
 
+    fn get_chroma_sampling(&self) -> Result<ChromaSampling> {
+        let format = self.get_format()?;
+        match (
+            format.color_family(),
+            format.sub_sampling_w(),
+            format.sub_sampling_h(),
+        ) {
+            (ColorFamily::Gray, _, _) => Ok(ChromaSampling::Cs400),
+            (ColorFamily::YUV, 0, 0) => Ok(ChromaSampling::Cs444),
+            (ColorFamily::YUV, 1, 0) => Ok(ChromaSampling::Cs422),
+            (ColorFamily::YUV, 1, 1) => Ok(ChromaSampling::Cs420),
+            _ => Err(anyhow::anyhow!("Format {} is not supported", format.name())),
+        }
+    }
+
     fn get_frame_rate(&self) -> Result<Framerate> {
         match self.get_node()?.info().framerate {
             Property::Constant(fps) => Ok(fps),
@@ -223,20 +244,11 @@ impl Decoder for VapoursynthDecoder {
         let format = self.get_format().unwrap();
         let res = self.get_resolution().unwrap();
         let fps = self.get_frame_rate().unwrap();
-        let chroma = match (
-            format.color_family(),
-            format.sub_sampling_w() + format.sub_sampling_h(),
-        ) {
-            (ColorFamily::Gray, _) => ChromaSampling::Cs400,
-            (_, 0) => ChromaSampling::Cs444,
-            (_, 1) => ChromaSampling::Cs422,
-            _ => ChromaSampling::Cs420,
-        };
         VideoDetails {
             width: res.width,
             height: res.height,
             bit_depth: format.bits_per_sample() as usize,
-            chroma_sampling: chroma,
+            chroma_sampling: self.get_chroma_sampling().unwrap(),
             chroma_sample_position: av_metrics::video::ChromaSamplePosition::Unknown,
             time_base: Rational::new(fps.denominator, fps.numerator),
             luma_padding: 0,
-- 
2.43.0


From a4c0f6bf7ac175c6f4b017ab7ecf71381a569897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 26/30] fix: ffmpeg: pictures whose size or format changes in
 the middle were misread

---
 av_metrics_decoders/src/ffmpeg.rs | 102 +++++++++++++++---------------
 1 file changed, 50 insertions(+), 52 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 01ceb39..fd56a4d 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -24,6 +24,39 @@ pub struct FfmpegDecoder {
     eof_sent: bool,
 }
 
+/// Returns the bit depth, chroma sampling, and chroma sample position of the supported formats.
+fn pixel_layout(
+    format: format::pixel::Pixel,
+) -> Option<(usize, ChromaSampling, ChromaSamplePosition)> {
+    use format::pixel::Pixel;
+
+    let bit_depth = match format {
+        Pixel::YUV420P
+        | Pixel::YUV422P
+        | Pixel::YUV444P
+        | Pixel::YUVJ420P
+        | Pixel::YUVJ422P
+        | Pixel::YUVJ444P => 8,
+        Pixel::YUV420P10LE | Pixel::YUV422P10LE | Pixel::YUV444P10LE => 10,
+        Pixel::YUV420P12LE | Pixel::YUV422P12LE | Pixel::YUV444P12LE => 12,
+        _ => return None,
+    };
+    let chroma_sampling = match format {
+        Pixel::YUV420P | Pixel::YUVJ420P | Pixel::YUV420P10LE | Pixel::YUV420P12LE => {
+            ChromaSampling::Cs420
+        }
+        Pixel::YUV422P | Pixel::YUVJ422P | Pixel::YUV422P10LE | Pixel::YUV422P12LE => {
+            ChromaSampling::Cs422
+        }
+        _ => ChromaSampling::Cs444,
+    };
+    let chroma_sample_position = match format {
+        Pixel::YUV422P | Pixel::YUV422P10LE | Pixel::YUV422P12LE => ChromaSamplePosition::Vertical,
+        _ => ChromaSamplePosition::Colocated,
+    };
+    Some((bit_depth, chroma_sampling, chroma_sample_position))
+}
+
 impl FfmpegDecoder {
     /// Initialize a new FFMpeg decoder for a given input file
     pub fn new<P: AsRef<Path>>(input: P) -> Result<Self, String> {
@@ -44,51 +77,18 @@ impl FfmpegDecoder {
             .set_parameters(input.parameters())
             .map_err(|e| e.to_string())?;
 
+        let (bit_depth, chroma_sampling, chroma_sample_position) =
+            pixel_layout(decoder.format())
+                .ok_or_else(|| format!("Unsupported pixel format {:?}", decoder.format()))?;
+
         let frame_rate = input.avg_frame_rate();
         Ok(Self {
             video_details: VideoDetails {
                 width: decoder.width() as usize,
                 height: decoder.height() as usize,
-                bit_depth: match decoder.format() {
-                    format::pixel::Pixel::YUV420P
-                    | format::pixel::Pixel::YUV422P
-                    | format::pixel::Pixel::YUV444P
-                    | format::pixel::Pixel::YUVJ420P
-                    | format::pixel::Pixel::YUVJ422P
-                    | format::pixel::Pixel::YUVJ444P => 8,
-                    format::pixel::Pixel::YUV420P10LE
-                    | format::pixel::Pixel::YUV422P10LE
-                    | format::pixel::Pixel::YUV444P10LE => 10,
-                    format::pixel::Pixel::YUV420P12LE
-                    | format::pixel::Pixel::YUV422P12LE
-                    | format::pixel::Pixel::YUV444P12LE => 12,
-                    _ => {
-                        return Err(format!("Unsupported pixel format {:?}", decoder.format()));
-                    }
-                },
-                chroma_sampling: match decoder.format() {
-                    format::pixel::Pixel::YUV420P
-                    | format::pixel::Pixel::YUVJ420P
-                    | format::pixel::Pixel::YUV420P10LE
-                    | format::pixel::Pixel::YUV420P12LE => ChromaSampling::Cs420,
-                    format::pixel::Pixel::YUV422P
-                    | format::pixel::Pixel::YUVJ422P
-                    | format::pixel::Pixel::YUV422P10LE
-                    | format::pixel::Pixel::YUV422P12LE => ChromaSampling::Cs422,
-                    format::pixel::Pixel::YUV444P
-                    | format::pixel::Pixel::YUVJ444P
-                    | format::pixel::Pixel::YUV444P10LE
-                    | format::pixel::Pixel::YUV444P12LE => ChromaSampling::Cs444,
-                    _ => {
-                        return Err(format!("Unsupported pixel format {:?}", decoder.format()));
-                    }
-                },
-                chroma_sample_position: match decoder.format() {
-                    format::pixel::Pixel::YUV422P
-                    | format::pixel::Pixel::YUV422P10LE
-                    | format::pixel::Pixel::YUV422P12LE => ChromaSamplePosition::Vertical,
-                    _ => ChromaSamplePosition::Colocated,
-                },
+                bit_depth,
+                chroma_sampling,
+                chroma_sample_position,
                 time_base: Rational::new(
                     frame_rate.denominator() as u64,
                     frame_rate.numerator() as u64,
@@ -105,21 +105,19 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
-            self.video_details.width,
-            self.video_details.height,
-            self.video_details.chroma_sampling,
-            0,
-        );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
-        crate::crop_frame(&mut f, width, height, self.video_details.chroma_sampling);
-        let bit_depth = self.video_details.bit_depth;
+        // The size and the format of the pictures may change in the middle of a video.
+        let width = decoded.width() as usize;
+        let height = decoded.height() as usize;
+        let (bit_depth, chroma_sampling, chroma_sample_position) = pixel_layout(decoded.format())
+            .filter(|(bit_depth, ..)| *bit_depth == self.video_details.bit_depth)
+            .expect("The pixel format of the video changed to an unsupported one");
+        let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+        crate::crop_frame(&mut f, width, height, chroma_sampling);
         let bytes = if bit_depth > 8 { 2 } else { 1 };
         f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
-            self.video_details.chroma_sample_position,
+            chroma_sample_position,
             bit_depth,
             decoded.data(1),
             decoded.stride(1),
@@ -127,7 +125,7 @@ impl FfmpegDecoder {
         );
         convert_chroma_data(
             &mut f.planes[2],
-            self.video_details.chroma_sample_position,
+            chroma_sample_position,
             bit_depth,
             decoded.data(2),
             decoded.stride(2),
-- 
2.43.0


From 09517bf6d8f4ac5d66e682f9d43c1d6890ceb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 27/30] fix: psnr_hvs: samples of 16 bits wrapped to negative
 ones and overflowed the transform

---
 av_metrics/src/video/psnr_hvs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index acef5a2..536186d 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -229,10 +229,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let stride = plane1.cfg.stride;
     let data1 = plane1.data_origin();
     let data2 = plane2.data_origin();
-    let mut p1 = [0i16; 8 * 8];
-    let mut p2 = [0i16; 8 * 8];
-    let mut dct_p1 = [0i32; 8 * 8];
-    let mut dct_p2 = [0i32; 8 * 8];
+    let mut p1 = [0i32; 8 * 8];
+    let mut p2 = [0i32; 8 * 8];
+    let mut dct_p1 = [0i64; 8 * 8];
+    let mut dct_p2 = [0i64; 8 * 8];
     assert!(plane1.data.len() >= stride * height);
     assert!(plane2.data.len() >= stride * height);
     for y in (0..(height - STEP)).step_by(STEP) {
@@ -250,8 +250,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
@@ -294,10 +294,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
             }
 
             p1.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p1[i] = v as i32;
+                dct_p1[i] = v as i64;
             });
             p2.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p2[i] = v as i32;
+                dct_p2[i] = v as i64;
             });
             od_bin_fdct8x8(&mut dct_p1);
             od_bin_fdct8x8(&mut dct_p2);
@@ -339,7 +339,7 @@ fn log10_convert(score: f64, weight: f64) -> f64 {
 const DCT_STRIDE: usize = 8;
 
 // Based on daala's version. It is different from the 8x8 DCT we use during encoding.
-fn od_bin_fdct8x8(data: &mut [i32]) {
+fn od_bin_fdct8x8(data: &mut [i64]) {
     assert!(data.len() >= 64);
     let mut z = [0; 64];
     for i in 0..8 {
@@ -351,7 +351,7 @@ fn od_bin_fdct8x8(data: &mut [i32]) {
 }
 
 #[allow(clippy::identity_op)]
-fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
+fn od_bin_fdct8(y: &mut [i64], x: &[i64]) {
     assert!(y.len() >= 8);
     assert!(x.len() > 7 * DCT_STRIDE);
     let mut t = [0; 8];
@@ -418,9 +418,9 @@ fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
 /// This will not work for `b == 0`, however currently this is only used for
 /// `b == 1` anyway.
 #[inline(always)]
-fn od_dct_rshift(a: i32, b: u32) -> i32 {
+fn od_dct_rshift(a: i64, b: u32) -> i64 {
     debug_assert!(b > 0);
-    debug_assert!(b <= 32);
+    debug_assert!(b <= 64);
 
-    ((a as u32 >> (32 - b)) as i32 + a) >> b
+    ((a as u64 >> (64 - b)) as i64 + a) >> b
 }
-- 
2.43.0


From 72100dcf47032b402dd4c76e325c3b5cf3213c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 28/30] fix: msssim: second moments of samples of 14 bits and
 more overflowed

---
 av_metrics/src/video/ssim.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 0f3122a..ad0b2e9 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -388,14 +388,16 @@ fn calculate_plane_ssim_internal(
             let k_max = vert_kernel.len() - tmp_offset;
             for x in 0..width {
                 let mut moments = SsimMoments::default();
+                // The second moments of high bit depths exceed 64 bits on the smaller scales
+                let (mut x2, mut xy, mut y2) = (0i128, 0i128, 0i128);
                 for k in k_min..k_max {
                     let buf = lines[(y + 1 + k - vert_kernel.len()) & line_mask][x];
                     let window = vert_kernel[k];
                     moments.mux += window * buf.mux;
                     moments.muy += window * buf.muy;
-                    moments.x2 += window * buf.x2;
-                    moments.xy += window * buf.xy;
-                    moments.y2 += window * buf.y2;
+                    x2 += window as i128 * buf.x2 as i128;
+                    xy += window as i128 * buf.xy as i128;
+                    y2 += window as i128 * buf.y2 as i128;
                     moments.w += window * buf.w;
                 }
                 let w = moments.w as f64;
@@ -404,8 +406,8 @@ fn calculate_plane_ssim_internal(
                 let mx2 = (moments.mux as f64).powi(2);
                 let mxy = moments.mux as f64 * moments.muy as f64;
                 let my2 = (moments.muy as f64).powi(2);
-                let cs_tmp = w * (c2 + 2.0 * (moments.xy as f64 * w - mxy))
-                    / (moments.x2 as f64 * w - mx2 + moments.y2 as f64 * w - my2 + c2);
+                let cs_tmp = w * (c2 + 2.0 * (xy as f64 * w - mxy))
+                    / (x2 as f64 * w - mx2 + y2 as f64 * w - my2 + c2);
                 cs += cs_tmp;
                 ssim += cs_tmp * (2.0 * mxy + c1) / (mx2 + my2 + c1);
                 ssimw += w;
-- 
2.43.0


From a7cc3743045a6e8468a1c4e06779f3e92c24fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 29/30] fix: escape backslashes in the cells of the Markdown
 report

A backslash at the end of a file name escaped the delimiter behind it.
---
 av_metrics_tool/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index fcb0eb5..1782b24 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -390,7 +390,10 @@ fn csv_field(value: &str) -> String {
 
 /// Escapes a value which would otherwise break the table of a Markdown report.
 fn markdown_cell(value: &str) -> String {
-    value.replace('|', "\\|").replace(['\n', '\r'], " ")
+    value
+        .replace('\\', "\\\\")
+        .replace('|', "\\|")
+        .replace(['\n', '\r'], " ")
 }
 
 enum OutputType {
-- 
2.43.0


From ecf0e0531ec536acaafddaf12fe4844866ccff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 30/30] fix: CIEDE2000 of frames whose chroma planes have
 different layouts

The rows of the second chroma plane were looked up with the layout of the first.
---
 av_metrics/src/video/ciede/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 7b55a7a..4840796 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -134,7 +134,8 @@ impl VideoMetric for Ciede2000 {
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
             let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
-            let c_range = frame1.planes[1].row_range_cropped(0, (i >> dec.1) as isize);
+            let u_range = frame1.planes[1].row_range_cropped(0, (i >> dec.1) as isize);
+            let v_range = frame1.planes[2].row_range_cropped(0, (i >> dec.1) as isize);
 
             let mut delta_e_vec = vec![0.0; y_width];
 
@@ -142,13 +143,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        u: &frame1.planes[1].data[u_range.clone()],
+                        v: &frame1.planes[2].data[v_range.clone()],
                     },
                     FrameRow {
                         y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        u: &frame2.planes[1].data[u_range],
+                        v: &frame2.planes[2].data[v_range],
                     },
                     &mut delta_e_vec[..],
                 );
-- 
2.43.0

