From c445021a558c0e59e35f82b6cf9e23c217e79f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 01/48] fix: SIMD brightness processes the last bytes and masks
 alpha for every layout

adds_256_u8 never processed the bytes after the last full 32-byte chunk (they
came out as 0) and masked every fourth byte whatever the channel count.
---
 src/simd.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..8d11708 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -14,21 +14,30 @@ use std::arch::x86::*;
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let num_bytes = input.info().full_size();
+    let channels = input.info().channels as u32;
+    assert!(input.data().len() >= num_bytes as usize, "image data is shorter than its dimensions");
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
+    // Process a whole number of pixels per chunk, so that the alpha mask fits every chunk
+    let step = 32 - 32 % channels;
+
     // Load val into 256-bit SIMD register
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
 
     // Mask the alpha bit if present
     if input.info().alpha {
         let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
+        let mut alpha_bytes = [0u8; 32];
+        for j in (0..32).filter(|j| j % channels == channels - 1) {
+            alpha_bytes[j as usize] = 0x80;
+        }
+        let alpha_mask = _mm256_loadu_si256(alpha_bytes.as_ptr() as *const _);
         val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
     }
 
     // Process 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -43,14 +52,16 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         // Store 32 bytes in output vector
         _mm256_storeu_si256(data.as_mut_ptr().offset(i as isize) as *mut _, res);
 
-        i += 32;
+        i += step;
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
-            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
-        }
+    for j in i..num_bytes {
+        data[j as usize] = if input.info().alpha && j % channels == channels - 1 {
+            input.data()[j as usize]
+        } else {
+            (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From 628e19cbbbefa9ea5c4a22d550455f74fe3a6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 02/48] fix: SIMD single-channel add processes the last bytes
 and stays in bounds

adds_n_256_u8 never processed the bytes after the last full chunk, read and
wrote up to 2 bytes past the end of the buffers (32-byte accesses in 30-byte
steps), applied 3/4-channel masks to every other layout and ignored the
documented behaviour for an invalid channel number.
---
 src/simd.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 8d11708..ba2c2b0 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -74,6 +74,8 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let num_bytes = input.info().full_size();
+    let channels = input.info().channels as u32;
+    assert!(input.data().len() >= num_bytes as usize, "image data is shorter than its dimensions");
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
@@ -86,7 +88,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
             1 => _mm256_set1_epi32(0x8000),
             2 => _mm256_set1_epi32(0x800000),
             3 => _mm256_set1_epi32(-0x80000000),
-            _ => _mm256_setzero_si256()
+            _ => _mm256_set1_epi8(-0x80)
         }
     } else {
         match n {
@@ -96,7 +98,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
                                    0x800000800000, -0x7FFFFF7FFFFF8000),
             2 => _mm256_set_epi64x(0x800000800000, -0x7FFFFF7FFFFF8000,
                                    0x80000080000080, 0x800000800000),
-            _ => _mm256_setzero_si256()
+            _ => _mm256_set1_epi8(-0x80)
         }
     };
     val_256 = _mm256_blendv_epi8(zeroes_256, val_256, mask);
@@ -111,8 +113,11 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         step = 32;
     }
 
+    // The masks above only fit 3-channel pixels and 4-channel pixels with alpha
+    let is_mask_valid = channels == if input.info().alpha { 4 } else { 3 };
+
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while is_mask_valid && (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -127,11 +132,13 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
-        }
+    // Process the remaining bytes normally
+    for j in i..num_bytes {
+        data[j as usize] = if n as u32 >= channels || j % channels == n as u32 {
+            (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8
+        } else {
+            input.data()[j as usize]
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From aeb84978c4c5e9c89e2c34a3007409968408e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 03/48] fix: SIMD grayscale averages exactly, covers the last
 pixels and stays in bounds

avg_256_u8/avg_alpha_256_u8 computed ((r+g)/2+b)/2 instead of the mean, left
the pixels after the last full chunk at 0, and the safe avg_checked_256_u8
wrote out of bounds for 1- and 2-channel images.
---
 src/colorspace.rs |  2 +-
 src/simd.rs       | 52 +++++++++++++++++++++++++++++++----------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..bc23b92 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -25,7 +25,7 @@ pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     rgb_to_grayscale_norm(input)
 }
 
-fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
+pub(crate) fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
     input.map_pixels_if_alpha(|channels, p_out| {
         let mut sum = 0;
         for channel in channels.iter() {
diff --git a/src/simd.rs b/src/simd.rs
index ba2c2b0..143f16d 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -2,6 +2,9 @@
 
 use crate::image::{BaseImage, Image};
 
+#[cfg(feature = "simd")]
+use crate::colorspace::rgb_to_grayscale_norm;
+
 #[cfg(all(feature = "simd", target_arch = "x86_64"))]
 use std::arch::x86_64::*;
 
@@ -198,6 +201,24 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the rounded down average of each triple of 8-bit integers in `r`, `g`, and `b`
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_epu8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
+    let zeroes = _mm256_setzero_si256();
+
+    // Multiplying by 0x5556 / 2^16 is an exact division by 3 for sums of three 8-bit integers
+    let third = _mm256_set1_epi16(0x5556);
+    let sum_lo = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpacklo_epi8(r, zeroes),
+                                                   _mm256_unpacklo_epi8(g, zeroes)),
+                                  _mm256_unpacklo_epi8(b, zeroes));
+    let sum_hi = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpackhi_epi8(r, zeroes),
+                                                   _mm256_unpackhi_epi8(g, zeroes)),
+                                  _mm256_unpackhi_epi8(b, zeroes));
+
+    _mm256_packus_epi16(_mm256_mulhi_epu16(sum_lo, third), _mm256_mulhi_epu16(sum_hi, third))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -211,9 +232,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_epu8(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -221,11 +240,9 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    for j in (i..num_bytes).step_by(3) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / channels] = (sum / 3) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -246,9 +263,7 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_epu8(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -265,12 +280,10 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / 2] = (sum / 3) as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
@@ -281,6 +294,11 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
 /// returns a grayscale image
 #[cfg(feature = "simd")]
 pub fn avg_checked_256_u8(input: &Image<u8>) -> Image<u8> {
+    // The SIMD functions only support images with 3 color channels
+    if input.info().channels_non_alpha() != 3 {
+        return rgb_to_grayscale_norm(input);
+    }
+
     if input.info().alpha {
         unsafe { avg_alpha_256_u8(input) }
     } else {
-- 
2.43.0


From 35d3e82bebe08ed70202442c30d78fba02babfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 04/48] fix: reject a brightness bias of i16::MIN instead of
 overflowing

bias.abs() panics (or wraps to a negative number) for i16::MIN.
---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From 3af220dc90cc273bd1de30cd8191bd940cba51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 05/48] fix: histogram percentiles count every pixel once

Each key started at 1 and was then incremented for its first pixel, so the
percentiles were too large and exceeded 1.
---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..c09ffdb 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From c4409f1566d260e1f15bd7bde6eaf82ca9bb7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 06/48] fix: crop accepts rectangles that touch the right or
 bottom edge

x + width == input width is a valid rectangle; also avoid the overflow of
x + width for huge arguments.
---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..c73b576 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let size = width * height;
-- 
2.43.0


From c02cc862740ba86e29e6e78994aa3afa93f3ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 07/48] fix: superimpose accepts every weight between 0 and 1

The arguments of check_in_range were in the wrong order, so only weights >= 1
were accepted.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index c73b576..1e48d19 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x + front.info().width, back.info().width);
-- 
2.43.0


From 8eb65028ced49cc4b34f0f9d836ae2b49e2116a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 08/48] fix: overlay and superimpose do not overflow for
 far-away positions

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1e48d19..aaa99fe 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -65,8 +65,8 @@ pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha:
     error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
@@ -90,8 +90,8 @@ pub fn overlay<T: Number>(back: &Image<T>, front: &Image<T>, x: u32, y: u32) ->
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
-- 
2.43.0


From 2b3440eb59e8a6f80c978ae47475ca6a80d4f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 09/48] fix: nearest neighbor scaling never reads past the last
 row or column

When the output size is rounded up, the source index of the last output pixel
could be the input width/height (e.g. width 3, factor 1.5), which panicked.
---
 src/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index aaa99fe..1fe5df4 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -427,8 +427,8 @@ fn scale_lanczos_resampling(input: &Image<f32>, info: &ImageInfo, x_factor: f32,
 }
 
 fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> &[f32] {
-    let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
-    let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
+    let x_in = std::cmp::min((((x + 1) as f32 / x_factor).ceil() - 1.0) as u32, input.info().width - 1);
+    let y_in = std::cmp::min((((y + 1) as f32 / y_factor).ceil() - 1.0) as u32, input.info().height - 1);
 
     input.get_pixel(x_in, y_in)
 }
-- 
2.43.0


From 1063eca70b438edf82bbad48cd4f8b52a0d0a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/48] fix: bilinear scaling weights the nearer pixel more

The interpolation weights were swapped: a position at distance 0.1 from a pixel
gave that pixel the weight 0.1 instead of 0.9.
---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1fe5df4..049505b 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -450,10 +450,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From 754355e9b99cbdcc73549c3dcdc4803a0ffa9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 11/48] fix: rotate moves every pixel to the right place for
 every angle

Rotation by 0 or 180 degrees was not exact (pixels shifted by one, columns
duplicated by the hole filling), rotation by 90 degrees could lose a row to
truncation or panic, and other angles overwrote pixels with their neighbors.
Map output pixels back to the input instead.
---
 src/transform.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 049505b..e38fa4f 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -212,45 +212,44 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let (sin, cos) = degrees.to_radians().sin_cos();
 
     // Center coordinates
-    let x = w_in / 2;
-    let y = h_in / 2;
+    let x = w_in as f32 / 2.0;
+    let y = h_in as f32 / 2.0;
 
     let mat = [cos, -sin, sin, cos];
 
     // Compute dimensions of output image
-    let coords1 = util::vector_mul(&mat, &[-(x as f32), y as f32])?;
-    let coords2 = util::vector_mul(&mat, &[(w_in - x) as f32, y as f32])?;
-    let coords3 = util::vector_mul(&mat, &[-(x as f32), (y as f32) - (h_in as f32)])?;
-    let coords4 = util::vector_mul(&mat, &[(w_in - x) as f32, (y as f32) - (h_in as f32)])?;
+    let coords1 = util::vector_mul(&mat, &[-x, y])?;
+    let coords2 = util::vector_mul(&mat, &[x, y])?;
+    let coords3 = util::vector_mul(&mat, &[-x, -y])?;
+    let coords4 = util::vector_mul(&mat, &[x, -y])?;
 
     let x_max = util::max_4(coords1[0], coords2[0], coords3[0], coords4[0]);
     let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);
     let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
     let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
 
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (x_max - x_min).round() as u32;
+    let h_out = (y_max - y_min).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
     let mut coords = Vec::with_capacity(input.info().channels as usize);
 
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    // Rotate the center of each output pixel back to find the corresponding input pixel
+    let mat_inv = [cos, sin, -sin, cos];
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+    for j in 0..h_out {
+        for i in 0..w_out {
+            let x1 = (i as f32) + 0.5 - (w_out as f32) / 2.0;
+            let y1 = (h_out as f32) / 2.0 - (j as f32) - 0.5;
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+            util::vector_mul_mut(&mat_inv, &[x1, y1], &mut coords)?;
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
+            coords[0] = (coords[0] + x).floor();
+            coords[1] = (y - coords[1]).floor();
 
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+            if coords[0] >= 0.0 && coords[0] < w_in as f32 && coords[1] >= 0.0 && coords[1] < h_in as f32 {
+                output.set_pixel(i, j, input.get_pixel(coords[0] as u32, coords[1] as u32));
             }
         }
     }
-- 
2.43.0


From 9eba1760a106a1609ac976f5d6119818f02920c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 12/48] fix: get_subimage lists pixels in row-major order

The pixels were pushed column by column, so a sub-image with more than one row
and column was transposed.
---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..03ae501 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From c5e68b47af3bd4b34c1c9d354eaa2bad0d022a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 13/48] fix: neighborhoods repeat the nearest edge pixel

Coordinates outside the image were replaced by the center coordinate instead of
the nearest edge coordinate (the documented clamp padding), which differs for
sizes of 5 and more.
---
 src/image/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 03ae501..ca05f54 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -318,8 +318,7 @@ impl<T: Number> Image<T> {
             let start_y = (y as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_y = (start_y + (i as i32)).clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -329,8 +328,7 @@ impl<T: Number> Image<T> {
             let start_x = (x as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                let curr_x = (start_x + (i as i32)).clamp(0, self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -354,11 +352,8 @@ impl<T: Number> Image<T> {
         let mut data = Vec::new();
         for i in 0..size {
             for j in 0..size {
-                let mut curr_x = start_x + (j as i32);
-                let mut curr_y = start_y + (i as i32);
-
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_x = (start_x + (j as i32)).clamp(0, self.info.width as i32 - 1);
+                let curr_y = (start_y + (i as i32)).clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From 2a04d40bed1f0c273c928c3627323eb938fdc800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 14/48] fix: PixelIter::size_hint counts the remaining pixels

It kept returning the size of the whole image.
---
 src/image/pixel_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..74bf3a1 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -67,7 +67,8 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
+        let size = (self.x_max as usize + 1) * (self.y_max as usize + 1);
+        let size = size - (self.y as usize * (self.x_max as usize + 1) + self.x as usize);
         (size, Some(size))
     }
 }
-- 
2.43.0


From b02151317b0339ab25535c5e6dffcbcca4beb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 15/48] fix: iterating over an image without pixels yields
 nothing

width - 1 and height - 1 underflowed.
---
 src/image/pixel_iter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 74bf3a1..9c2f476 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -36,12 +36,18 @@ pub struct PixelIter<'a, T: Number> {
 
 impl<'a, T: Number> PixelIter<'a, T> {
     pub fn new(image: &'a Image<T>) -> Self {
+        let x_max = image.info().width.saturating_sub(1);
+        let y_max = image.info().height.saturating_sub(1);
+
+        // The iterator of an image without pixels starts out at its end
+        let (x, y) = if image.info().size() == 0 { (x_max + 1, y_max) } else { (0, 0) };
+
         PixelIter {
             image,
-            x: 0,
-            y: 0,
-            x_max: image.info().width - 1,
-            y_max: image.info().height - 1,
+            x,
+            y,
+            x_max,
+            y_max,
         }
     }
 }
-- 
2.43.0


From b17553b1da4da13a9cfbc67b25f74419a296edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 16/48] fix: mapping the pixels of an empty image does not
 divide by zero

---
 src/image/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index ca05f54..82f869f 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -399,7 +399,11 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = if self.info.size() == 0 {
+            self.info.channels
+        } else {
+            (data.len() as u32 / self.info.size()) as u8
+        };
 
         Image {
             info: ImageInfo {
@@ -431,7 +435,11 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = if self.info.size() == 0 {
+            self.info.channels
+        } else {
+            (data.len() as u32 / self.info.size()) as u8
+        };
 
         Image {
             info: ImageInfo {
-- 
2.43.0


From 34121e237b50cdb09a406b2e064f4876a7c5b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 17/48] fix: reject pixels whose length only matches modulo 256

---
 src/error/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index 6c52244..ed7cf41 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -2,7 +2,7 @@ use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Number, Image, BaseImage};
 
 pub(crate) fn check_channels(channels: u8, len: usize) {
-    if channels != len as u8 {
+    if channels as usize != len {
         panic!("invalid pixel length: the number of channels is {}, \
                 but the pixel length is {}", channels, len);
     }
-- 
2.43.0


From f735f7861e63d239a9f5b5e1e40af368e7413abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 18/48] fix: the box filter averages over a size x size
 neighborhood

The 1D kernels had size^2 entries of 1/size^2, i.e. a size^2 x size^2 box.
---
 src/filter/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..85e1976 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,7 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let kernel = vec![1.0 / (size as f32); size as usize];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From af341e3595b4771ed516eb2cfbd08286968840e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 19/48] fix: derivative masks accept grayscale images with
 alpha

check_grayscale admits them, but the loop then panicked.
---
 src/filter/edge.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..b1b5882 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -16,8 +16,11 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
 
     let mut output = Image::blank(input.info());
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        output[i][0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
+        if input.info().alpha {
+            output[i][1] = input[i][1];
+        }
     }
 
     Ok(output)
-- 
2.43.0


From 9eb4aa4ec5c42e8982ffdc5b941668e617abe335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 20/48] fix: sign in the Laplacian of Gaussian kernel

exp already holds -r^2 / (2 sigma^2), so the factor is 1 + exp; the kernel was
negative everywhere.
---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index c09ffdb..762b9dc 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -97,7 +97,7 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
         for j in 0..(size as i32) {
             if i <= j {
                 let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 - exp) * (E.powf(exp));
+                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From e7d6dfc3464182acf288c6623b75823dc65febba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 21/48] fix: the spatial matrix gives its center the largest
 weight

The center entry was skipped and stayed 0, so the bilateral filter ignored the
pixel itself and produced NaN for a 1x1 matrix.
---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 762b9dc..d7e8632 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -117,7 +117,7 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
     for y in 0..(center + 1) {
         for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
+            if mat[(y * size + x) as usize] == 0.0 {
                 let dist = math::distance(center, center, x, y);
                 let g = math::gaussian_fn(dist, spatial)?;
                 mat[(y * size + x) as usize] = g;
-- 
2.43.0


From f8df6bfc61f91942a7257141b817a9b4b4cafe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 22/48] fix: the bilateral filter works for every spatial
 parameter

spatial * 4 + 1 can be even (e.g. for 0.25), for which the spatial matrix was
indexed out of bounds.
---
 src/filter/bilateral.rs | 4 ++--
 src/util/mod.rs         | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..62b4582 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -14,7 +14,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels) = input.info().whc();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = ((spatial * 4.0) + 1.0) as u32 | 1; // Must be odd
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -43,7 +43,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels, alpha) = input.info().whca();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = ((spatial * 4.0) + 1.0) as u32 | 1; // Must be odd
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
diff --git a/src/util/mod.rs b/src/util/mod.rs
index d7e8632..48060a2 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -112,6 +112,8 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
 /// Generates a matrix of distances relative to the center of the matrix
 pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>> {
+    error::check_odd(size, "size")?;
+
     let center = size / 2;
     let mut mat = vec![0.0; (size * size) as usize];
 
-- 
2.43.0


From e20573f85f3ce6f043f4d5685411147b7653d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 23/48] fix: matrix-vector multiplication checks the exact
 matrix size

The integer division accepted matrices that are too large and divided by zero
for an empty vector.
---
 src/util/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..322c8ce 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -8,9 +8,8 @@ use rulinalg::matrix::{Matrix, BaseMatrix};
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     let mut output = vec![0.into(); rows];
 
@@ -26,9 +25,8 @@ pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
 /// Returns the result of the multiplication of a square matrix by a vector in `output`
 pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) -> ImgProcResult<()> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     output.clear();
     for _ in 0..rows {
-- 
2.43.0


From 17542d3f580d3688e7960ad3c73c3630e9083c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 24/48] fix: a hue of exactly 1.0 is red

hsv_to_rgb_f32 mapped it to the last sextant with fraction 0 (magenta).
---
 src/colorspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index bc23b92..df25aeb 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -266,7 +266,7 @@ pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
         let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0) as u8;
         let val = (channels[2] * 255.0) as u8;
 
-        match hue.floor() as u8 {
+        match hue.floor() as u8 % 6 {
             0 => p_out.extend([val, t, p].iter()),
             1 => p_out.extend([q, val, p].iter()),
             2 => p_out.extend([p, val, t].iter()),
-- 
2.43.0


From bcf2ccd8665d978ab3efb94c22e8ce4b0de8d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 25/48] fix: morphology kernels are clipped at the image border

Near a border the kernel collapsed to the pixel itself on that side, and a
radius larger than the image underflowed.
---
 src/morphology.rs | 81 ++++++++---------------------------------------
 1 file changed, 13 insertions(+), 68 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..b7b91cf 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -4,6 +4,11 @@ use crate::{error, util};
 use crate::error::ImgProcResult;
 use crate::image::{Image, BaseImage};
 
+// Returns the first and last coordinate of the kernel centered at `pos` that lie inside the image
+fn clip_kernel(pos: u32, radius: u32, size: u32) -> (u32, u32) {
+    (pos.saturating_sub(radius), std::cmp::min(pos.saturating_add(radius), size - 1))
+}
+
 /// Erodes a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
 /// `(2 * radius + 1) x (2 * radius + 1)`
 pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
@@ -17,23 +22,8 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (x_top, x_bot) = clip_kernel(x, radius, width);
+            let (y_top, y_bot) = clip_kernel(y, radius, height);
 
             if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
                 output.set_pixel(x, y, &[255]);
@@ -55,23 +45,8 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (x_top, x_bot) = clip_kernel(x, radius, width);
+            let (y_top, y_bot) = clip_kernel(y, radius, height);
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
                 output.set_pixel(x, y, &[255]);
@@ -93,23 +68,8 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (x_top, x_bot) = clip_kernel(x, radius, width);
+            let (y_top, y_bot) = clip_kernel(y, radius, height);
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
                 output.set_pixel(x, y, &[255]);
@@ -143,23 +103,8 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (x_top, x_bot) = clip_kernel(x, radius, width);
+            let (y_top, y_bot) = clip_kernel(y, radius, height);
 
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
             let erode = ((sum - max_sum).abs() < f32::EPSILON);
-- 
2.43.0


From aea36ec11f6e1d47b7a7949742b665798276fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 26/48] fix: morphology is exact for large images and radii

The f32 summed-area table is only exact up to 2^24, i.e. 65793 white pixels, and
size * size * 255 overflowed for large radii. Sum up in f64.
---
 src/morphology.rs | 20 ++++++++++----------
 src/util/mod.rs   |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index b7b91cf..f5e1aec 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -15,9 +15,9 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let size = 2.0 * radius as f64 + 1.0;
+    let max_sum = size * size * 255.0;
+    let table: Image<f64> = util::generate_summed_area_table(&input.clone().into());
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -25,7 +25,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (x_top, x_bot) = clip_kernel(x, radius, width);
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
-            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
+            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f64::EPSILON {
                 output.set_pixel(x, y, &[255]);
             }
         }
@@ -40,7 +40,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let table: Image<f64> = util::generate_summed_area_table(&input.clone().into());
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -63,7 +63,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let table: Image<f64> = util::generate_summed_area_table(&input.clone().into());
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -96,9 +96,9 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let size = 2.0 * radius as f64 + 1.0;
+    let max_sum = size * size * 255.0;
+    let table: Image<f64> = util::generate_summed_area_table(&input.clone().into());
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -107,7 +107,7 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-            let erode = ((sum - max_sum).abs() < f32::EPSILON);
+            let erode = ((sum - max_sum).abs() < f64::EPSILON);
             let dilate = (sum >= 255.0);
 
             if erode ^ dilate {
diff --git a/src/util/mod.rs b/src/util/mod.rs
index 48060a2..4ef05a1 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -162,10 +162,10 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
 /// Generates a summed-area table in the format of another `Image` of the same type and dimensions
 /// as `input`
-pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
+pub fn generate_summed_area_table<T: Number>(input: &Image<T>) -> Image<T> {
     let mut output = Image::blank(input.info());
     let (width, height, channels) = input.info().whc();
-    let zeroes = vec![0.0; channels as usize];
+    let zeroes: Vec<T> = vec![0.into(); channels as usize];
 
     for y in 0..height {
         for x in 0..width {
@@ -199,11 +199,11 @@ pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
 
 /// Computes the sum of pixel intensities over a rectangular region with top left corner located
 /// at `(x_0, y_0)` and bottom right corner located at `(x_1, y_1)`
-pub fn rectangular_intensity_sum(summed_area_table: &Image<f32>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<f32> {
+pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<T> {
     let channels = summed_area_table.info().channels as usize;
     let mut sum = Vec::new();
 
-    let zeroes = vec![0.0; channels];
+    let zeroes: Vec<T> = vec![0.into(); channels];
     let mut top_left = zeroes.as_slice();
     let mut top_right = zeroes.as_slice();
     let mut bot_left = zeroes.as_slice();
-- 
2.43.0


From bf333ffabb4f39d2fd821809e918b600ebe891e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 27/48] fix: morphology accepts grayscale images with alpha

check_grayscale admits them, but setting a 1-channel pixel panicked.
---
 src/morphology.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index f5e1aec..6b0179e 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -25,8 +25,12 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (x_top, x_bot) = clip_kernel(x, radius, width);
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
+            if input.info().alpha {
+                output.get_pixel_mut(x, y)[1] = input.get_pixel(x, y)[1];
+            }
+
             if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f64::EPSILON {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -48,8 +52,12 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (x_top, x_bot) = clip_kernel(x, radius, width);
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
+            if input.info().alpha {
+                output.get_pixel_mut(x, y)[1] = input.get_pixel(x, y)[1];
+            }
+
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -71,8 +79,12 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (x_top, x_bot) = clip_kernel(x, radius, width);
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
+            if input.info().alpha {
+                output.get_pixel_mut(x, y)[1] = input.get_pixel(x, y)[1];
+            }
+
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -106,12 +118,16 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let (x_top, x_bot) = clip_kernel(x, radius, width);
             let (y_top, y_bot) = clip_kernel(y, radius, height);
 
+            if input.info().alpha {
+                output.get_pixel_mut(x, y)[1] = input.get_pixel(x, y)[1];
+            }
+
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
             let erode = ((sum - max_sum).abs() < f64::EPSILON);
             let dilate = (sum >= 255.0);
 
             if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
-- 
2.43.0


From c31ccc8d75a94480c2b21d71ddd8510a2c82d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 28/48] fix: majority compares with half of the kernel area

It was a copy of dilate.
---
 src/morphology.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6b0179e..4a6d5d5 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -83,7 +83,10 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 output.get_pixel_mut(x, y)[1] = input.get_pixel(x, y)[1];
             }
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
+            // Number of pixels under the part of the kernel inside the image
+            let area = (x_bot - x_top + 1) as f64 * (y_bot - y_top + 1) as f64;
+
+            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] * 2.0 > area * 255.0 {
                 output.get_pixel_mut(x, y)[0] = 255;
             }
         }
-- 
2.43.0


From 5b50e2ee0b090662f0f8ef7711ed45fdb3a466ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 29/48] fix: the median filter moves on when the pivot is just
 above the median

If exactly `center` values are less than the previous median, the current median
is one of them, so the histogram has to be scanned downwards.
---
 src/filter/median.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..014a81a 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,9 +304,6 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
                 Ordering::Less => { // The current median is greater than the previous median,
                                     // so the histogram should be scanned upwards
                     for key in pivot..=255 {
@@ -321,8 +318,8 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
-                                       // should be scanned downwards
+                _ => { // The current median is less than the previous median, so the histogram
+                       // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
 
-- 
2.43.0


From 919310d10376bfc9a175314b70b0f38a148e90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 30/48] fix: the median filter does not overwrite the last
 column

The last block of columns reaches past the right border; its surplus columns
were all written to the last column of the image.
---
 src/filter/median.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 014a81a..86907c2 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -270,7 +270,7 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
     }
 
     // Compute first median values
-    for i in 0..n_cols {
+    for i in 0..std::cmp::min(n_cols, (width - x) as usize) {
         p_out.clear();
         for hist in histograms.iter_mut() {
             let mut sum = 0;
@@ -288,15 +288,14 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        output.set_pixel(x + i as u32, 0, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
 }
 
 fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_out: &mut Vec<u8>, center: i32, n_cols: usize, x: u32, y: u32) {
-    for i in 0..n_cols {
+    for i in 0..std::cmp::min(n_cols, (output.info().width - x) as usize) {
         p_out.clear();
         for hist in histograms.iter_mut() {
             let pivot = hist.pivots()[i]; // Get the previous median
@@ -333,8 +332,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
-- 
2.43.0


From 81db8c0e7e4019548223d667b2e1648b1cd745be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 31/48] fix: the alpha-trimmed mean filter computes the trimmed
 mean

The initial histograms added the first row again for every row, alpha = 0
underflowed, and the incremental bookkeeping searched the wrong vector and lost
track of the discarded values. Compute the mean from the (correctly updated)
partial histograms, and do not overwrite the last column.
---
 src/filter/median.rs | 242 +++++--------------------------------------
 1 file changed, 25 insertions(+), 217 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 86907c2..439442d 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -363,28 +363,19 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
     trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
                  // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    len: usize, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
             trim: (alpha as usize) / 2,
-            len,
+            len: (size * size) - alpha as usize,
         }
     }
 
@@ -392,168 +383,28 @@ impl MeanHist {
         &self.data
     }
 
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
-    }
-
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
-
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
+        self.data.update(p_in, channel_index, add);
     }
 
+    // Returns the mean of the participating pixel values in the kernel for the pixel at the given
+    // index
     fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+        let mut skip = self.trim; // The number of values still to be discarded at the low end
+        let mut remaining = self.len; // The number of values still to be added to the sum
+        let mut sum = 0;
+
+        for key in 0..256 {
+            let count = self.data().get_count(key, index) as usize;
+            let skipped = std::cmp::min(skip, count);
+            let added = std::cmp::min(remaining, count - skipped);
+
+            sum += added * key;
+            skip -= skipped;
+            remaining -= added;
         }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
-        }
+        ((sum as f32) / (self.len as f32)).round() as u8
     }
 }
 
@@ -563,7 +414,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -590,9 +441,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -603,63 +453,21 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
-    for i in 0..n_cols {
-        p_out.clear();
-        for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
-            p_out.push(hist.get_mean(i));
-        }
-
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
-    }
+    process_row_mean(output, histograms, p_out, n_cols, x, 0);
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
-    for i in 0..n_cols {
+    for i in 0..std::cmp::min(n_cols, (output.info().width - x) as usize) {
         p_out.clear();
         for hist in histograms.iter_mut() {
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
     }
 }
 
-- 
2.43.0


From 6c11001746f76f382cded044e79e94aa4da6f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 32/48] fix: grayscale conversion does not overflow for many
 channels

---
 src/colorspace.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index df25aeb..f6cd08e 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -27,12 +27,12 @@ pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
 
 pub(crate) fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
     input.map_pixels_if_alpha(|channels, p_out| {
-        let mut sum = 0;
+        let mut sum: u32 = 0;
         for channel in channels.iter() {
-            sum += *channel as i16;
+            sum += *channel as u32;
         }
 
-        p_out.push((sum / channels.len() as i16) as u8);
+        p_out.push((sum / channels.len() as u32) as u8);
     }, |a| a)
 }
 
-- 
2.43.0


From 441b22e767dcf9fa129b2e836c645509cd78007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 33/48] fix: shear keeps rounded coordinates inside the output
 image

---
 src/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index e38fa4f..887ec2d 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -309,7 +309,10 @@ pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Im
                 coords[1] += offset_y;
             }
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32, input.get_pixel(x, y));
+            // Rounding can carry the outermost pixels past the edge of the output
+            let x_out = std::cmp::min(coords[0] as u32, w_out - 1);
+            let y_out = std::cmp::min(coords[1] as u32, h_out - 1);
+            output.set_pixel(x_out, y_out, input.get_pixel(x, y));
         }
     }
 
-- 
2.43.0


From fed2734ffae96a8d98d6e08b859065668b9983c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 34/48] fix: bicubic and Lanczos sampling take whole-pixel
 offsets from the floor of the source position

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 887ec2d..0c540ab 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -469,10 +469,10 @@ fn interpolate_bicubic(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32,
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for m in -1..3 {
-        let x_clamp = (x_in + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
 
         for n in -1..3 {
-            let y_clamp = (y_in + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let r = util::cubic_weighting_fn((m as f32) - delta_x)
                 * util::cubic_weighting_fn(delta_y - (n as f32));
@@ -494,10 +494,10 @@ fn interpolate_lanczos(input: &Image<f32>, x_factor: f32, y_factor: f32, size: u
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for i in (1 - (size as i32))..(size as i32 + 1) {
-        let x_clamp = (x_in + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
 
         for j in (1 - (size as i32))..(size as i32 + 1) {
-            let y_clamp = (y_in + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let lanczos = util::lanczos_kernel(delta_x - (i as f32), size as f32)
                 * util::lanczos_kernel(delta_y - (j as f32), size as f32);
-- 
2.43.0


From fb98cc1e6a74227035e2a9f19d6c1fc604afd9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 35/48] fix: separate_kernel factors kernels directly instead
 of by an SVD that panics or never ends

---
 src/util/math.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 322c8ce..3c7d1b3 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -45,24 +44,39 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+
+    if kernel.is_empty() || size * size != kernel.len() {
+        return None;
+    }
+
+    // Factor the kernel around its largest element: if it is separable, it is the outer product
+    // of the column and the row of that element
+    let mut max = 0;
+    for (i, val) in kernel.iter().enumerate() {
+        if val.abs() > kernel[max].abs() {
+            max = i;
+        }
+    }
+
+    if kernel[max] == 0.0 {
+        return None;
+    }
+
+    let (row, col) = (max / size, max % size);
+    let scalar = kernel[max].abs().sqrt();
+    let vertical_kernel: Vec<f32> = (0..size).map(|i| kernel[i * size + col] / scalar).collect();
+    let horizontal_kernel: Vec<f32> = (0..size).map(|j| kernel[row * size + j] / (kernel[max] / scalar)).collect();
 
     // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    let tolerance = 2.0 * f32::EPSILON * kernel[max].abs();
+    for i in 0..size {
+        for j in 0..size {
+            if (kernel[i * size + j] - vertical_kernel[i] * horizontal_kernel[j]).abs() > tolerance {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From 472cd1a384ca6b48034bdf4568fed5a4daa71933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 36/48] fix: rectangle sums of unsigned images do not underflow

---
 src/util/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 4ef05a1..5bcf9e4 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -221,7 +221,8 @@ pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u
     }
 
     for i in 0..channels {
-        sum.push(bot_right[i] - top_right[i] - bot_left[i] + top_left[i]);
+        // Grouped so that no intermediate value is negative
+        sum.push((bot_right[i] - top_right[i]) - (bot_left[i] - top_left[i]));
     }
 
     sum
-- 
2.43.0


From 0ff5fe42a14554308722c8fa784fceec6470f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 37/48] fix: get_subimage panics for a rectangle whose far edge
 exceeds u32

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 82f869f..a9ecced 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for j in y..(y + height) {
-            for i in x..(x + width) {
+        for j in y..y.saturating_add(height) {
+            for i in x..x.saturating_add(width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From b16eb8e6a19e3060ea2c2b4f266564686d01a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 38/48] fix: weighted_avg_filter accepts every weight

---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 85e1976..23c67aa 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -141,7 +141,7 @@ pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
 pub fn weighted_avg_filter(input: &Image<f32>, size: u32, weight: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let sum = (size * size) - 1 + weight;
+    let sum = ((size * size) - 1) as u64 + weight as u64;
     let center = (size / 2) * size + (size / 2);
     let mut kernel = vec![1.0 / (sum as f32); (size * size) as usize];
     kernel[center as usize] = (weight as f32) / (sum as f32);
-- 
2.43.0


From 5c839e5940da081fe1d0b2f3602223729f8ee414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 39/48] fix: bilinear, bicubic and Lanczos scaling panic beyond
 coordinate 2^24

The source coordinate was computed in f32, which rounds coordinates above 2^24
and can round the last one past the edge of the image.
---
 src/transform.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 0c540ab..ca0403d 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -436,14 +436,15 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
 }
 
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-    let x_in = x as f32 / x_factor;
-    let y_in = y as f32 / y_factor;
+    // f64 represents every coordinate exactly; f32 rounds those above 2^24 past the edge
+    let x_in = (x as f64 / x_factor as f64).min((input.info().width - 1) as f64);
+    let y_in = (y as f64 / y_factor as f64).min((input.info().height - 1) as f64);
     let x_1 = x_in.floor() as u32;
     let x_2 = std::cmp::min(x_in.ceil() as u32, input.info().width - 1);
     let y_1 = y_in.floor() as u32;
     let y_2 = std::cmp::min(y_in.ceil() as u32, input.info().height - 1);
-    let x_weight = x_in - (x_1 as f32);
-    let y_weight = y_in - (y_1 as f32);
+    let x_weight = (x_in - (x_1 as f64)) as f32;
+    let y_weight = (y_in - (y_1 as f64)) as f32;
 
     let p1 = input.get_pixel(x_1, y_1);
     let p2 = input.get_pixel(x_2, y_1);
@@ -462,17 +463,18 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 }
 
 fn interpolate_bicubic(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-    let x_in = (x as f32) / x_factor;
-    let y_in = (y as f32) / y_factor;
-    let delta_x = x_in - x_in.floor();
-    let delta_y = y_in - y_in.floor();
+    // f64 represents every coordinate exactly; f32 rounds those above 2^24 past the edge
+    let x_in = x as f64 / x_factor as f64;
+    let y_in = y as f64 / y_factor as f64;
+    let delta_x = (x_in - x_in.floor()) as f32;
+    let delta_y = (y_in - y_in.floor()) as f32;
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for m in -1..3 {
-        let x_clamp = (x_in.floor() + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (m as f64)).clamp(0.0, input.info().width as f64 - 1.0) as u32;
 
         for n in -1..3 {
-            let y_clamp = (y_in.floor() + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (n as f64)).clamp(0.0, input.info().height as f64 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let r = util::cubic_weighting_fn((m as f32) - delta_x)
                 * util::cubic_weighting_fn(delta_y - (n as f32));
@@ -487,17 +489,18 @@ fn interpolate_bicubic(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32,
 }
 
 fn interpolate_lanczos(input: &Image<f32>, x_factor: f32, y_factor: f32, size: u32, x: u32, y: u32) -> Vec<f32> {
-    let x_in = (x as f32) / x_factor;
-    let y_in = (y as f32) / y_factor;
-    let delta_x = x_in - x_in.floor();
-    let delta_y = y_in - y_in.floor();
+    // f64 represents every coordinate exactly; f32 rounds those above 2^24 past the edge
+    let x_in = x as f64 / x_factor as f64;
+    let y_in = y as f64 / y_factor as f64;
+    let delta_x = (x_in - x_in.floor()) as f32;
+    let delta_y = (y_in - y_in.floor()) as f32;
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for i in (1 - (size as i32))..(size as i32 + 1) {
-        let x_clamp = (x_in.floor() + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (i as f64)).clamp(0.0, input.info().width as f64 - 1.0) as u32;
 
         for j in (1 - (size as i32))..(size as i32 + 1) {
-            let y_clamp = (y_in.floor() + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (j as f64)).clamp(0.0, input.info().height as f64 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let lanczos = util::lanczos_kernel(delta_x - (i as f32), size as f32)
                 * util::lanczos_kernel(delta_y - (j as f32), size as f32);
-- 
2.43.0


From 6adf0d3415c1cc36bb24da9e03e48ad4be36a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:05 +0000
Subject: [PATCH 40/48] fix: alpha_trimmed_mean_filter rounds means next to a
 half wrongly for large windows

The quotient was rounded to f32 before it was rounded to the nearest level.
---
 src/filter/median.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 439442d..608667e 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -404,7 +404,7 @@ impl MeanHist {
             remaining -= added;
         }
 
-        ((sum as f32) / (self.len as f32)).round() as u8
+        ((sum as f64) / (self.len as f64)).round() as u8
     }
 }
 
-- 
2.43.0


From 9f77801f730ae819f96c9ac53eda158db37032eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 41/48] fix: rotate is inaccurate for many full turns and for
 coordinates beyond 2^23

The angle was converted to radians and the coordinates were rotated in f32.
---
 src/transform.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index ca0403d..0cafc23 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -209,11 +209,13 @@ pub fn translate<T: Number>(input: &Image<T>, x: u32, y: u32) -> ImgProcResult<I
 /// Rotates an image `degrees` degrees counterclockwise around the center of the image
 pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let (w_in, h_in) = input.info().wh();
-    let (sin, cos) = degrees.to_radians().sin_cos();
+
+    // f64, as f32 is too coarse for many full turns and for the coordinates of large images
+    let (sin, cos) = (degrees as f64 % 360.0).to_radians().sin_cos();
 
     // Center coordinates
-    let x = w_in as f32 / 2.0;
-    let y = h_in as f32 / 2.0;
+    let x = w_in as f64 / 2.0;
+    let y = h_in as f64 / 2.0;
 
     let mat = [cos, -sin, sin, cos];
 
@@ -223,10 +225,10 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let coords3 = util::vector_mul(&mat, &[-x, -y])?;
     let coords4 = util::vector_mul(&mat, &[x, -y])?;
 
-    let x_max = util::max_4(coords1[0], coords2[0], coords3[0], coords4[0]);
-    let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);
-    let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
-    let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
+    let x_max = coords1[0].max(coords2[0]).max(coords3[0]).max(coords4[0]);
+    let x_min = coords1[0].min(coords2[0]).min(coords3[0]).min(coords4[0]);
+    let y_max = coords1[1].max(coords2[1]).max(coords3[1]).max(coords4[1]);
+    let y_min = coords1[1].min(coords2[1]).min(coords3[1]).min(coords4[1]);
 
     let w_out = (x_max - x_min).round() as u32;
     let h_out = (y_max - y_min).round() as u32;
@@ -240,15 +242,15 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
 
     for j in 0..h_out {
         for i in 0..w_out {
-            let x1 = (i as f32) + 0.5 - (w_out as f32) / 2.0;
-            let y1 = (h_out as f32) / 2.0 - (j as f32) - 0.5;
+            let x1 = (i as f64) + 0.5 - (w_out as f64) / 2.0;
+            let y1 = (h_out as f64) / 2.0 - (j as f64) - 0.5;
 
             util::vector_mul_mut(&mat_inv, &[x1, y1], &mut coords)?;
 
             coords[0] = (coords[0] + x).floor();
             coords[1] = (y - coords[1]).floor();
 
-            if coords[0] >= 0.0 && coords[0] < w_in as f32 && coords[1] >= 0.0 && coords[1] < h_in as f32 {
+            if coords[0] >= 0.0 && coords[0] < w_in as f64 && coords[1] >= 0.0 && coords[1] < h_in as f64 {
                 output.set_pixel(i, j, input.get_pixel(coords[0] as u32, coords[1] as u32));
             }
         }
-- 
2.43.0


From d45b3a71d4bf217dcc63f0aa7c0b29023a05ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:20 +0000
Subject: [PATCH 42/48] fix: shear misplaces pixels at coordinates beyond 2^24

The coordinates were computed in f32; only the shifts are now.
---
 src/transform.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 0cafc23..c3a7259 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -293,27 +293,25 @@ pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Im
     let h_out = offset_y as u32 + h_in;
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
-    let mut coords = Vec::with_capacity(input.info().channels as usize);
-
-    // Negative sign to give the conventional orientation for a positive shear, since the image
-    // coordinates are flipped from conventional coordinates (i.e. (0,0) is in the top left corner
-    // instead of the bottom left corner)
-    let mat = [1.0, -shear_x, -shear_y, 1.0];
 
     for y in 0..h_in {
         for x in 0..w_in {
-            util::vector_mul_mut(&mat, &[x as f32, y as f32], &mut coords)?;
+            // Negative sign to give the conventional orientation for a positive shear, since the
+            // image coordinates are flipped from conventional coordinates (i.e. (0,0) is in the top
+            // left corner instead of the bottom left corner)
+            let mut shift_x = -shear_x * y as f32;
+            let mut shift_y = -shear_y * x as f32;
 
             if shear_x > 0.0 {
-                coords[0] += offset_x;
+                shift_x += offset_x;
             }
             if shear_y > 0.0 {
-                coords[1] += offset_y;
+                shift_y += offset_y;
             }
 
-            // Rounding can carry the outermost pixels past the edge of the output
-            let x_out = std::cmp::min(coords[0] as u32, w_out - 1);
-            let y_out = std::cmp::min(coords[1] as u32, h_out - 1);
+            // Only the shifts are rounded, since f32 cannot represent every coordinate above 2^24
+            let x_out = std::cmp::min(x + shift_x as u32, w_out - 1);
+            let y_out = std::cmp::min(y + shift_y as u32, h_out - 1);
             output.set_pixel(x_out, y_out, input.get_pixel(x, y));
         }
     }
-- 
2.43.0


From 10aaefe61ff414cd5187ccb9516f1e8dd7960e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 43/48] fix: images of more than u32::MAX samples are addressed
 wrongly

Sample offsets and counts were computed in u32, which such images exceed: accesses
panicked or, without overflow checks, reached other pixels, and the SIMD adds ran
past the end of the buffer.
---
 src/image/mod.rs       | 35 ++++++++++++++++++++---------------
 src/image/sub_image.rs |  2 +-
 src/simd.rs            | 34 +++++++++++++++++-----------------
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index a9ecced..74f120b 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -176,6 +176,11 @@ impl ImageInfo {
     pub fn full_size(&self) -> u32 {
         self.width * self.height * (self.channels as u32)
     }
+
+    // Returns the full size of the image, which may exceed the range of u32
+    pub(crate) fn full_size_usize(&self) -> usize {
+        self.width as usize * self.height as usize * self.channels as usize
+    }
 }
 
 impl std::fmt::Display for ImageInfo {
@@ -203,7 +208,7 @@ impl<T: Number> Image<T> {
 
     /// Creates a new `Image<T>` from a vector of vectors
     pub fn from_vec_of_vec(width: u32, height: u32, channels: u8, alpha: bool, data: Vec<Vec<T>>) -> Self {
-        let mut data_vec = Vec::with_capacity((width * height * channels as u32) as usize);
+        let mut data_vec = Vec::with_capacity(width as usize * height as usize * channels as usize);
         for vec in &data {
             data_vec.extend_from_slice(vec)
         }
@@ -216,7 +221,7 @@ impl<T: Number> Image<T> {
 
     /// Creates a new `Image<T>` from a vector of slices
     pub fn from_vec_of_slice(width: u32, height: u32, channels: u8, alpha: bool, data: Vec<&[T]>) -> Self {
-        let mut data_vec = Vec::with_capacity((width * height * channels as u32) as usize);
+        let mut data_vec = Vec::with_capacity(width as usize * height as usize * channels as usize);
         for vec in data {
             data_vec.extend_from_slice(vec)
         }
@@ -231,7 +236,7 @@ impl<T: Number> Image<T> {
     pub fn blank(info: ImageInfo) -> Self {
         Image {
             info,
-            data: vec![0.into(); info.full_size() as usize],
+            data: vec![0.into(); info.full_size_usize()],
         }
     }
 
@@ -239,13 +244,13 @@ impl<T: Number> Image<T> {
     pub fn empty(info: ImageInfo) -> Self {
         Image {
             info,
-            data: Vec::with_capacity(info.full_size() as usize),
+            data: Vec::with_capacity(info.full_size_usize()),
         }
     }
 
     /// Returns the 1d index corresponding to the 2d `(x, y)` indices
     pub fn index(&self, x: u32, y: u32) -> usize {
-        ((y * self.info.width + x) * self.info.channels as u32) as usize
+        (y as usize * self.info.width as usize + x as usize) * self.info.channels as usize
     }
 
     /// Returns all data as a slice
@@ -260,7 +265,7 @@ impl<T: Number> Image<T> {
 
     /// Returns a slice representing the pixel located at `(x, y)` without checking index bounds
     pub fn get_pixel_unchecked(&self, x: u32, y: u32) -> &[T] {
-        &self[(y * self.info.width + x) as usize]
+        &self[y as usize * self.info.width as usize + x as usize]
     }
 
     /// Returns a mutable slice representing the pixel located at `(x, y)`
@@ -278,7 +283,7 @@ impl<T: Number> Image<T> {
     /// Returns a mutable slice representing the pixel located at `(x, y)` without checking index
     /// bounds
     pub fn get_pixel_mut_unchecked(&mut self, x: u32, y: u32) -> &mut [T] {
-        let index = (y * self.info.width + x) as usize;
+        let index = y as usize * self.info.width as usize + x as usize;
         &mut self[index]
     }
 
@@ -402,7 +407,7 @@ impl<T: Number> Image<T> {
         let channels = if self.info.size() == 0 {
             self.info.channels
         } else {
-            (data.len() as u32 / self.info.size()) as u8
+            (data.len() / self.info.size() as usize) as u8
         };
 
         Image {
@@ -438,7 +443,7 @@ impl<T: Number> Image<T> {
         let channels = if self.info.size() == 0 {
             self.info.channels
         } else {
-            (data.len() as u32 / self.info.size()) as u8
+            (data.len() / self.info.size() as usize) as u8
         };
 
         Image {
@@ -455,9 +460,9 @@ impl<T: Number> Image<T> {
     /// Applies function `f` to each channel of each pixel
     pub fn map_channels<S: Number, F>(&self, f: F) -> Image<S>
         where F: Fn(T) -> S {
-        let mut data = Vec::with_capacity(self.info.full_size() as usize);
+        let mut data = Vec::with_capacity(self.info.full_size_usize());
 
-        for i in 0..(self.info.full_size() as usize) {
+        for i in 0..self.info.full_size_usize() {
             data.push(f(self.data[i]));
         }
 
@@ -477,7 +482,7 @@ impl<T: Number> Image<T> {
             return self.map_channels(f);
         }
 
-        let mut data = Vec::with_capacity(self.info.full_size() as usize);
+        let mut data = Vec::with_capacity(self.info.full_size_usize());
         for i in 0..(self.info.size() as usize) {
             data.append(&mut self[i].map_alpha(&f, &g));
         }
@@ -523,7 +528,7 @@ impl<T: Number> Image<T> {
     /// Applies function `f` to each channel of each pixel
     pub fn apply_channels<F>(&mut self, f: F)
         where F: Fn(T) -> T {
-        for i in 0..(self.info.full_size() as usize) {
+        for i in 0..self.info.full_size_usize() {
             self.data[i] = f(self.data[i]);
         }
     }
@@ -547,7 +552,7 @@ impl<T: Number> Image<T> {
     /// Applies function `f` to each channel of index `index` of each pixel. Modifies `self`
     pub fn edit_channel<F>(&mut self, f: F, index: usize)
         where F: Fn(T) -> T {
-        for i in (index..(self.info.full_size() as usize)).step_by(self.info.channels as usize) {
+        for i in (index..self.info.full_size_usize()).step_by(self.info.channels as usize) {
             self.data[i] = f(self.data[i]);
         }
     }
@@ -561,7 +566,7 @@ impl<T: Number> BaseImage<T> for Image<T> {
     fn get_pixel(&self, x: u32, y: u32) -> &[T] {
         error::check_xy(x, y, self.info.width, self.info.height);
 
-        &self[(y * self.info.width + x) as usize]
+        &self[y as usize * self.info.width as usize + x as usize]
     }
 }
 
diff --git a/src/image/sub_image.rs b/src/image/sub_image.rs
index c14dab8..95dc4ab 100644
--- a/src/image/sub_image.rs
+++ b/src/image/sub_image.rs
@@ -42,7 +42,7 @@ impl<T: Number> BaseImage<T> for SubImage<'_, T> {
     fn get_pixel(&self, x: u32, y: u32) -> &[T] {
         check_xy(x, y, self.info.width, self.info.height);
 
-        &self[(y * self.info.width + x) as usize]
+        &self[y as usize * self.info.width as usize + x as usize]
     }
 }
 
diff --git a/src/simd.rs b/src/simd.rs
index 143f16d..2ce4628 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -16,10 +16,10 @@ use std::arch::x86::*;
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
-    let num_bytes = input.info().full_size();
-    let channels = input.info().channels as u32;
-    assert!(input.data().len() >= num_bytes as usize, "image data is shorter than its dimensions");
-    let mut data: Vec<u8> = vec![0; num_bytes as usize];
+    let num_bytes = input.info().full_size_usize();
+    let channels = input.info().channels as usize;
+    assert!(input.data().len() >= num_bytes, "image data is shorter than its dimensions");
+    let mut data: Vec<u8> = vec![0; num_bytes];
 
     // Process a whole number of pixels per chunk, so that the alpha mask fits every chunk
     let step = 32 - 32 % channels;
@@ -32,7 +32,7 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         let zeroes_256 = _mm256_setzero_si256();
         let mut alpha_bytes = [0u8; 32];
         for j in (0..32).filter(|j| j % channels == channels - 1) {
-            alpha_bytes[j as usize] = 0x80;
+            alpha_bytes[j] = 0x80;
         }
         let alpha_mask = _mm256_loadu_si256(alpha_bytes.as_ptr() as *const _);
         val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
@@ -60,10 +60,10 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 
     // Process the remaining bytes normally
     for j in i..num_bytes {
-        data[j as usize] = if input.info().alpha && j % channels == channels - 1 {
-            input.data()[j as usize]
+        data[j] = if input.info().alpha && j % channels == channels - 1 {
+            input.data()[j]
         } else {
-            (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8
+            (input.data()[j] as i16 + val).clamp(0, 255) as u8
         };
     }
 
@@ -76,10 +76,10 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
-    let num_bytes = input.info().full_size();
-    let channels = input.info().channels as u32;
-    assert!(input.data().len() >= num_bytes as usize, "image data is shorter than its dimensions");
-    let mut data: Vec<u8> = vec![0; num_bytes as usize];
+    let num_bytes = input.info().full_size_usize();
+    let channels = input.info().channels as usize;
+    assert!(input.data().len() >= num_bytes, "image data is shorter than its dimensions");
+    let mut data: Vec<u8> = vec![0; num_bytes];
 
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
     let zeroes_256 = _mm256_setzero_si256();
@@ -137,10 +137,10 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
 
     // Process the remaining bytes normally
     for j in i..num_bytes {
-        data[j as usize] = if n as u32 >= channels || j % channels == n as u32 {
-            (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8
+        data[j] = if n as usize >= channels || j % channels == n as usize {
+            (input.data()[j] as i16 + val).clamp(0, 255) as u8
         } else {
-            input.data()[j as usize]
+            input.data()[j]
         };
     }
 
@@ -225,7 +225,7 @@ unsafe fn avg_3_epu8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
 pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
-    let num_bytes = input.info().full_size() as usize;
+    let num_bytes = input.info().full_size_usize();
     let mut data: Vec<u8> = vec![0; (num_bytes / 3) as usize];
 
     let mut i: usize= 0;
@@ -256,7 +256,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
 pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
-    let num_bytes = input.info().full_size() as usize;
+    let num_bytes = input.info().full_size_usize();
     let mut data: Vec<u8> = vec![0; (num_bytes / 2) as usize];
 
     let mut i: usize= 0;
-- 
2.43.0


From 2df42653638ff07d72bcd21988f21ba2f1a7ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:11 +0000
Subject: [PATCH 44/48] fix: reject non-square kernels of more than 2^24
 weights instead of panicking

The length was checked as an f32, which cannot hold it exactly.
---
 src/error/messages.rs | 2 +-
 src/filter/mod.rs     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index ed7cf41..185fd4a 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -49,7 +49,7 @@ pub(crate) fn check_equal<T: std::cmp::PartialEq>(val_1: T, val_2: T, name: &str
     Ok(())
 }
 
-pub(crate) fn check_square(val: f32, name: &str) -> ImgProcResult<()> {
+pub(crate) fn check_square(val: f64, name: &str) -> ImgProcResult<()> {
     if val.sqrt() % 1.0 != 0.0 {
         return Err(ImgProcError::InvalidArgError(format!("{} must be square", name)));
     }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 23c67aa..5485e81 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -75,7 +75,7 @@ pub fn separable_filter(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[
 #[cfg(not(feature = "rayon"))]
 pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let size = (kernel.len() as f32).sqrt() as u32;
     let (width, height, channels) = input.info().whc();
@@ -96,7 +96,7 @@ pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<I
 #[cfg(feature = "rayon")]
 pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let size = (kernel.len() as f32).sqrt() as u32;
     let (width, height, channels, alpha) = input.info().whca();
@@ -115,7 +115,7 @@ pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<I
 /// Applies a linear filter using the 2D `kernel`
 pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let separable = util::separate_kernel(kernel);
     match separable {
-- 
2.43.0


From 7fa34cea04c99d62ba15cdc88eef45eb1d13953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:01 +0000
Subject: [PATCH 45/48] fix: bilateral filter with very small or very large
 parameters returned a black image

The Gaussian weights left the range of f32.
---
 src/filter/bilateral.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 62b4582..1b90c7c 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -13,6 +13,9 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(range, "range")?;
     error::check_non_neg(spatial, "spatial")?;
 
+    // The weights do not change beyond these limits, but they would exceed the range of f32
+    let (range, spatial) = (range.clamp(1e-9, 1e9), spatial.max(1e-3));
+
     let (width, height, channels) = input.info().whc();
     let size = ((spatial * 4.0) + 1.0) as u32 | 1; // Must be odd
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
@@ -42,6 +45,9 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(range, "range")?;
     error::check_non_neg(spatial, "spatial")?;
 
+    // The weights do not change beyond these limits, but they would exceed the range of f32
+    let (range, spatial) = (range.clamp(1e-9, 1e9), spatial.max(1e-3));
+
     let (width, height, channels, alpha) = input.info().whca();
     let size = ((spatial * 4.0) + 1.0) as u32 | 1; // Must be odd
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
-- 
2.43.0


From 0b720d4fb35b20d8fd846f58cdca871c437941c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:37 +0000
Subject: [PATCH 46/48] fix: Gaussian functions and kernels of extreme widths
 contained NaN

Squares of such widths leave the range of f32, so compute them in f64.
---
 src/util/math.rs |  6 ++++--
 src/util/mod.rs  | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 3c7d1b3..c4a40dc 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
-use std::f32::consts::{PI, E};
+use std::f32::consts::PI;
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -240,9 +240,11 @@ pub fn distance(x_1: u32, y_1: u32, x_2: u32, y_2: u32) -> f32 {
 pub fn gaussian_fn(x: f32, sigma: f32) -> ImgProcResult<f32> {
     error::check_non_neg(sigma, "sigma")?;
 
+    // In f64, as the squares of very small and very large values exceed the range of f32
+    let (x, sigma) = (x as f64, sigma as f64);
     let sigma_squared = sigma * sigma;
 
-    Ok((1.0 / (2.0 * PI * sigma_squared)) * E.powf(-(x * x) / (2.0 * sigma_squared)))
+    Ok(((1.0 / (2.0 * PI as f64 * sigma_squared)) * (-(x * x) / (2.0 * sigma_squared)).exp()) as f32)
 }
 
 /// Cubic weighting function for bicubic interpolation
diff --git a/src/util/mod.rs b/src/util/mod.rs
index 5bcf9e4..288ff13 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -5,7 +5,7 @@ pub use self::math::*;
 mod math;
 
 use std::collections::{BTreeMap, HashMap};
-use std::f32::consts::{E, PI};
+use std::f64::consts::{E, PI};
 
 use crate::enums::White;
 use crate::error;
@@ -68,12 +68,13 @@ pub fn generate_gaussian_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>
 
     let mut filter = vec![0.0; (size * size) as usize];
     let k = ((size - 1) / 2) as i32;
+    let sigma = sigma as f64; // The powers of a small sigma are below the range of f32
 
     for i in 0..(size as i32) {
         for j in 0..(size as i32) {
             if i <= j {
-                let num = (1.0 / (2.0 * PI * sigma * sigma)) *
-                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma)));
+                let num = ((1.0 / (2.0 * PI * sigma * sigma)) *
+                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f64) / (2.0 * sigma * sigma)))) as f32;
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
@@ -92,12 +93,13 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
     let mut filter = vec![0.0; (size * size) as usize];
     let k = ((size - 1) / 2) as i32;
+    let sigma = sigma as f64; // The powers of a small sigma are below the range of f32
 
     for i in 0..(size as i32) {
         for j in 0..(size as i32) {
             if i <= j {
-                let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
+                let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f64) / (2.0 * sigma * sigma);
+                let num = ((-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp))) as f32;
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From 2078f805e410789277b7147ed59f5e76b1829200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:35 +0000
Subject: [PATCH 47/48] fix: Distance between neighbouring points far from the
 origin

---
 src/util/math.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index c4a40dc..773e2ea 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -230,10 +230,11 @@ pub fn apply_2d_kernel(input: &SubImage<f32>, kernel: &[f32]) -> ImgProcResult<V
 
 /// Calculates the distance between two points
 pub fn distance(x_1: u32, y_1: u32, x_2: u32, y_2: u32) -> f32 {
-    let x_dist = (x_1 as f32) - (x_2 as f32);
-    let y_dist = (y_1 as f32) - (y_2 as f32);
+    // f64 represents every coordinate exactly; f32 merges neighbouring coordinates above 2^24
+    let x_dist = (x_1 as f64) - (x_2 as f64);
+    let y_dist = (y_1 as f64) - (y_2 as f64);
 
-    ((x_dist * x_dist) + (y_dist * y_dist)).sqrt()
+    ((x_dist * x_dist) + (y_dist * y_dist)).sqrt() as f32
 }
 
 /// Calculates the Gaussian function for G_sigma(x)
-- 
2.43.0


From 80197488cb9c60e13eaa8f766c17abb9ab41171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:00 +0000
Subject: [PATCH 48/48] fix: NaN was accepted as a bounded or non-negative
 argument

---
 src/error/messages.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index 185fd4a..0010a48 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -34,7 +34,7 @@ pub(crate) fn check_even<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_non_neg<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
-    if val < 0.into() {
+    if !(val >= 0.into()) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be non-negative", name)));
     }
 
@@ -58,7 +58,7 @@ pub(crate) fn check_square(val: f64, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_in_range<T: Number>(val: T, min: T, max: T, name: &str) -> ImgProcResult<()> {
-    if val < min || val > max {
+    if !(val >= min && val <= max) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be between {} and {} (inclusive)", name, min, max)));
     }
 
-- 
2.43.0

