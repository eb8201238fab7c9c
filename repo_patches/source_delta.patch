From 741f112149327b09d40ce07877acb5173a64b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 01/10] fix: keep Turbo run coding in sync when decompressing
 with downsampling

---
 src/compress/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..10d3343 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -364,6 +364,13 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // Turbo encoder enables run coding depending on quality * step, where step is
+                    // not downsampled, so compensate for downsampled step
+                    let quality = if header.encoder == header::Encoder::Turbo {
+                        (quality << downsampling.min(11)).min(2048)
+                    } else {
+                        quality
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From ac10f96e5fddf3acbe253cb1c238d6219bdb6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 02/10] fix: return Overflow instead of panicking when no space
 is left for blocks

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 10d3343..b0cf912 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From de9a6e1460f2ad1ba566b17fbd830a4519b2c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 03/10] fix: reject header values that can not be encoded

---
 src/header/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..b1869b9 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,6 +19,9 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        check_range(u32::from(self.layers), 0, 1 << 16, "Layers")?;
+        check_range(u32::from(self.channels), 0, 1 << 16, "Channels")?;
+        check_range(u32::from(self.chroma_scale), 0, 1 << 8, "Chroma scale")?;
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
@@ -44,7 +47,7 @@ impl HeaderBuilder {
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
             chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 3f910a4bdf94e699f2f9790b5dc3cc364f8a1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/10] fix: reject color transform denominators that are not
 positive i16 values

---
 src/color_transform/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..f1ab606 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -1,4 +1,4 @@
-use std::{cmp, io, u8};
+use std::{cmp, i16, io, u8};
 
 use num_traits::cast::NumCast;
 
@@ -56,8 +56,8 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
-            "Denominator should be positive integer"
+            denominator > 0 && denominator <= i16::MAX as isize,
+            "Denominator should be positive 16-bit integer"
         );
         self.denominator = denominator;
         self
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator < 1 || denominator > i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From e83a71dfd819b1e1bcc4f6d62a09a8ef170145fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 05/10] fix: count color transform program in next point of
 interest of decompress_simple

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..33d5b0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,9 @@ pub fn decompress_simple(
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
+    let original_len = data.len();
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
+    let service_len = original_len - data.len();
 
     let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
     let next_point_of_interest =
@@ -68,5 +70,8 @@ pub fn decompress_simple(
         &mut buffer,
     );
 
-    Ok(next_point_of_interest)
+    Ok(match next_point_of_interest {
+        0 => 0,
+        payload_next_point_of_interest => service_len + payload_next_point_of_interest,
+    })
 }
-- 
2.43.0


From 641d646d0214954178be9c8b4e596eab37e4a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 06/10] fix: do not touch output of decompress_simple in test
 mode

---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 33d5b0b..65ed78a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -63,12 +63,14 @@ pub fn decompress_simple(
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-    color_transform.detransform_and_to_interleaved(
-        &mut aux_data,
-        &header,
-        header.get_downsampled_channel_size(downsampling),
-        &mut buffer,
-    );
+    if !test {
+        color_transform.detransform_and_to_interleaved(
+            &mut aux_data,
+            &header,
+            header.get_downsampled_channel_size(downsampling),
+            &mut buffer,
+        );
+    }
 
     Ok(match next_point_of_interest {
         0 => 0,
-- 
2.43.0


From abb1396bcbec1022bf6155433360f77b7228d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 07/10] fix: write Golomb-Rice codes of 32 bits and longer
 correctly

---
 src/bits/mod.rs   | 4 ++++
 src/encode/mod.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bits/mod.rs b/src/bits/mod.rs
index d30fbdd..a0204c6 100644
--- a/src/bits/mod.rs
+++ b/src/bits/mod.rs
@@ -38,6 +38,10 @@ impl<W: WriteBytesExt> BitsWriter for BitsIOWriter<'_, W> {
 
         if new_bits < 32 {
             self.write_cache = (self.write_cache << bits) | x;
+        } else if bits == 32 && new_bits == 32 {
+            // whole word, nothing is cached
+            new_bits = 0;
+            self.write_stream.write_u32::<LittleEndian>(x)?;
         } else {
             new_bits -= 32;
 
diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..6834c72 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -18,7 +18,14 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        let binary = (1 << (pot)) | (x & !(!0u32 << (pot)));
+        if y + 1 + pot <= 32 {
+            stream.put_bits(binary, y + 1 + pot)?;
+        } else {
+            // does not fit in a single word
+            stream.put_bits(0, y)?;
+            stream.put_bits(binary, 1 + pot)?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From f0397c2a16a895b7f27a73fdd57412b5086f6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 08/10] fix: avoid arithmetic overflow panics in contextual
 encoder

---
 src/encode/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index 6834c72..67f8688 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -86,7 +86,7 @@ pub fn square<T: num_traits::ops::wrapping::WrappingMul + Copy>(t: T) -> T::Outp
 }
 
 pub fn add_context(x: i16, w: i32, sum: &mut u32, sum2: &mut u32, count: &mut u32) {
-    let x = x.abs() as u32;
+    let x = i32::from(x).abs() as u32;
     *sum += x * w as u32;
     *sum2 += square(x.min(4096)) * w as u32;
     *count += w as u32;
@@ -199,7 +199,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        (sum2.wrapping_mul(16).wrapping_add(count / 2)) / count,
     )
 }
 
@@ -395,9 +395,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
-- 
2.43.0


From 70bd7c63ece5682098c22adf81b1ef344ad2af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 09/10] fix: wrap around in inverse color transform also in
 debug builds

---
 src/color_transform/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index f1ab606..e465cf6 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -398,15 +398,19 @@ impl ColorTransformProgram {
             let dest_base = channel_transform.dest_channel * channel_size;
 
             for channel_factor in &channel_transform.channel_factors {
+                // samples of lossy images can exceed the range of original ones, so wrap around
+                // the same way in debug and release builds
+                let factor = channel_factor.factor as i16;
                 for i in 0..channel_size {
-                    transform_temp[i] += aux[channel_factor.src_channel * channel_size + i]
-                        * channel_factor.factor as i16;
+                    transform_temp[i] = transform_temp[i].wrapping_add(
+                        aux[channel_factor.src_channel * channel_size + i].wrapping_mul(factor),
+                    );
                 }
             }
 
             for i in 0..channel_size {
                 transform_temp[i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
 
-- 
2.43.0


From 86a963ce1ead4a6e101b538437fbe553db7a729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 10/10] fix: reject incomplete planes instead of accessing
 memory outside of them

compress_aux_data and decompress_aux_data lift, encode and decode without bounds checks. With fewer
samples than the header tells (or more of them, and more chroma marks than planes) they read and wrote
outside of the slice in release builds.
---
 src/compress/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index b0cf912..c297c70 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -53,6 +53,9 @@ fn aux_data_to_2d_channel<'a>(
 ) -> impl Iterator<Item = (Vec<&'a mut [i16]>, &'a bool)> {
     let channel_size = header.get_downsampled_channel_size(downsampling);
 
+    // lifting does not check bounds, so all channels must be complete
+    let (aux_data, _) = aux_data.split_at_mut(header.get_downsampled_image_size(downsampling));
+
     aux_data
         .chunks_mut(channel_size)
         .map(move |chunk| {
@@ -262,6 +265,9 @@ pub fn decompress_image_data(
     test: bool,
     is_chroma: &[bool],
 ) -> Result<usize, DecompressError> {
+    // decoding does not check bounds
+    assert!(test || aux_data.len() >= header.get_downsampled_image_size(downsampling));
+
     let chroma_quality = header.get_chroma_quality();
 
     let width = header.width as usize;
-- 
2.43.0

