From 6b0aa37687ffab1a5d64732ab5af8a2a6fef32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 01/14] fix: write Golomb-Rice codes longer than 31 bits in two
 parts

A code for a value above ~2^27 can take up to 36 bits, which put_bits can't
write at once: the shift amounts overflow and a different value is decoded.
---
 src/encode/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..70319a8 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -18,7 +18,13 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        let mut bits = y + 1 + pot;
+        if bits > 31 {
+            // too long for a single write, so put unary zeros separately
+            stream.put_bits(0, y)?;
+            bits -= y;
+        }
+        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), bits)?;
     }
 
     Ok(())
-- 
2.43.0


From c0c3e9bd582b8f2a0f224c90e9a8bb4c473381f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 02/14] fix: return Overflow instead of panicking when no space
 is left for blocks

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..f48b43b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From a03590a6af692bef5f785ca5a27a32bf05605cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 03/14] fix: reject denominators that detransform can't divide
 by

A denominator that is zero as i16 (e. g. 65536) made detransform divide by zero,
and -1 made it overflow on i16::MIN. set_denominator checked the old value.
---
 src/color_transform/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..02e1806 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -55,10 +55,7 @@ impl ChannelTransformBuilder {
     }
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
-        assert!(
-            self.denominator > 0,
-            "Denominator should be positive integer"
-        );
+        assert!(denominator > 0, "Denominator should be positive integer");
         self.denominator = denominator;
         self
     }
@@ -228,7 +225,8 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            // detransform divides by denominator as a positive i16
+            if denominator <= 0 || denominator > std::i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From 9d68ab58f3b2831887027f5fe8ea28bf59e458f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 04/14] fix: use chroma flag of the last transform of a channel
 in decode, as encode does

---
 src/color_transform/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 02e1806..eb4d4ec 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -235,8 +235,8 @@ impl ColorTransformProgram {
 
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
+            is_chroma[dest_channel] = channel_is_chroma != 0;
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
         }
-- 
2.43.0


From 1b76c91b88f7bc6f73c94fa108ba488ef3574162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 05/14] fix: check sizes of aux_data and is_chroma before
 compress and decompress

Blocks access aux_data through a raw pointer, so a slice that is shorter than the
header promises was read and written out of bounds.
---
 src/compress/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index f48b43b..2f8ce42 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -23,6 +23,12 @@ pub fn compress_aux_data(
     is_chroma: &[bool],
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if aux_data.len() < header.get_image_size()
+        || is_chroma.len() < usize::from(header.layers) * usize::from(header.channels)
+    {
+        return Err(CompressError::Malformed);
+    }
+
     lift_and_quantize(&mut aux_data, &header, &is_chroma);
     compress_image_data(&mut aux_data, &header, &mut buffer, &is_chroma)
 }
@@ -269,6 +275,12 @@ pub fn decompress_image_data(
     let layers = usize::from(header.layers);
     let channels = usize::from(header.channels);
 
+    if aux_data.len() < header.get_downsampled_image_size(downsampling)
+        || is_chroma.len() < layers * channels
+    {
+        return Err(DecompressError::TypeMismatch);
+    }
+
     let mut step = 1;
     while step * 2 < width || step * 2 < height {
         step *= 2;
-- 
2.43.0


From df86f1eda580b77bc4be76ac7a42326ed37b1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 06/14] fix: wrap explicitly in the context model and in
 decoding of signed values

Contexts of valid images with large coefficients and codes of malformed data
overflow u32/i32, which panics when overflow checks are on. The algorithm relies
on wrapping, as the reference implementation does with unsigned arithmetic.
---
 src/encode/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index 70319a8..d7e0f04 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -53,14 +53,14 @@ pub fn interleaved_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) ->
 pub fn interleaved_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
     let x = unsigned_decode(stream, pot)? as i32;
     if (x & 1) != 0 {
-        Ok((x + 1) / 2)
+        Ok(x.wrapping_add(1) / 2)
     } else {
-        Ok(-x / 2)
+        Ok(x.wrapping_neg() / 2)
     }
 }
 
 pub fn signed_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) -> io::Result<()> {
-    unsigned_code(x.abs() as u32, stream, pot)?;
+    unsigned_code(x.wrapping_abs() as u32, stream, pot)?;
     if x != 0 {
         stream.put_bits(if x > 0 { 1 } else { 0 }, 1)?;
     }
@@ -76,7 +76,7 @@ pub fn signed_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result
     } else if stream.get_bits(1)? != 0 {
         Ok(x)
     } else {
-        Ok(-x)
+        Ok(x.wrapping_neg())
     }
 }
 
@@ -85,7 +85,7 @@ pub fn square<T: num_traits::ops::wrapping::WrappingMul + Copy>(t: T) -> T::Outp
 }
 
 pub fn add_context(x: i16, w: i32, sum: &mut u32, sum2: &mut u32, count: &mut u32) {
-    let x = x.abs() as u32;
+    let x = i32::from(x).abs() as u32;
     *sum += x * w as u32;
     *sum2 += square(x.min(4096)) * w as u32;
     *count += w as u32;
@@ -198,7 +198,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        (sum2.wrapping_mul(16) + count / 2) / count,
     )
 }
 
@@ -394,9 +394,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
@@ -455,9 +455,9 @@ pub fn decode(
                     s = get_s(&mut *stream, sum_sq, context, is_chroma)?;
 
                     if scheme == Encoder::Fast {
-                        let t = s.abs() as u32;
+                        let t = s.wrapping_abs() as u32;
                         context = (
-                            ((context.0 * 15 + 7) >> 4) + t,
+                            (context.0.wrapping_mul(15).wrapping_add(7) >> 4).wrapping_add(t),
                             ((context.1 * 15 + 7) >> 4) + square(t.min(4096)),
                         );
                         run_coder = get_run_coder_fast(context, s, run_coder);
@@ -466,7 +466,7 @@ pub fn decode(
                     }
                 }
                 if run == 0 && s <= 0 {
-                    s -= 1; // s can't be zero, so shift negatives by 1
+                    s = s.wrapping_sub(1); // s can't be zero, so shift negatives by 1
                 }
                 run = -1;
             } else {
-- 
2.43.0


From 3d4ef5ecc226e04c66e29aac453e52ac5a0f96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 07/14] fix: wrap explicitly in lifting

Coefficients decoded from malformed data can be arbitrary, and their sums
overflow i16, which panics when overflow checks are on.
---
 src/lifting/cubic.rs  | 10 ++++++----
 src/lifting/linear.rs | 11 +++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/lifting/cubic.rs b/src/lifting/cubic.rs
index f6fc72b..3436cf8 100644
--- a/src/lifting/cubic.rs
+++ b/src/lifting/cubic.rs
@@ -45,7 +45,8 @@ unsafe fn horizontal_lifting_base(
     if column.len() > 3 * step {
         while x < column.len() - 3 * step {
             let c3 = *column.get_unchecked(3 * step + x);
-            *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c3) / divider) as i16;
+            let value = column.get_unchecked_mut(x);
+            *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
             c0 = c1;
             c1 = c2;
             c2 = c3;
@@ -53,7 +54,8 @@ unsafe fn horizontal_lifting_base(
         }
     }
     while x < column.len() {
-        *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c2) / divider) as i16;
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c2) / divider) as i16);
         c0 = c1;
         c1 = c2;
         x += step * 2;
@@ -85,8 +87,8 @@ unsafe fn vertical_lifting_base(
             c2
         };
 
-        *chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x) +=
-            (cubic(c0, c1, c2, c3) / divider) as i16;
+        let value = chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
         x += step;
     }
 }
diff --git a/src/lifting/linear.rs b/src/lifting/linear.rs
index da486ed..1a3b459 100644
--- a/src/lifting/linear.rs
+++ b/src/lifting/linear.rs
@@ -33,13 +33,15 @@ unsafe fn horizontal_lifting_base(
     while x < column.len() - step {
         let a = *column.get_unchecked_mut(x - step);
         let b = *column.get_unchecked_mut(x + step);
-        *column.get_unchecked_mut(x) += (a + b) / (divider * 2);
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add(a.wrapping_add(b) / (divider * 2));
         x += step * 2;
     }
 
     if x < column.len() {
-        *column.get_unchecked_mut(x) +=
-            (i32::from(*column.get_unchecked_mut(x - step)) / i32::from(divider)) as i16;
+        let a = *column.get_unchecked_mut(x - step);
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((i32::from(a) / i32::from(divider)) as i16);
     }
 }
 
@@ -74,7 +76,8 @@ unsafe fn vertical_lifting_base(
             c1
         };
 
-        *middle_value.get_unchecked_mut(x) += (c1 + c2) / divider;
+        let value = middle_value.get_unchecked_mut(x);
+        *value = value.wrapping_add(c1.wrapping_add(c2) / divider);
 
         x += step;
     }
-- 
2.43.0


From 6c2c90d8e49bd15c825cf299a316dd870ded1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 08/14] fix: wrap explicitly in color transforms

Programs with large factors and channels decoded from malformed data overflow
i16, which panics when overflow checks are on. Both directions wrap the same way,
so transforms are still reversible.
---
 src/color_transform/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index eb4d4ec..62741ac 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -314,15 +314,18 @@ impl ColorTransformProgram {
             for channel_factor in &channel_transform.channel_factors {
                 if is_channel_transformed[channel_factor.src_channel] {
                     for i in 0..channel_size {
-                        aux[dest_base + i] += aux[channel_factor.src_channel * channel_size + i]
-                            * channel_factor.factor as i16;
+                        aux[dest_base + i] = aux[dest_base + i].wrapping_add(
+                            aux[channel_factor.src_channel * channel_size + i]
+                                .wrapping_mul(channel_factor.factor as i16),
+                        );
                     }
                 } else {
-                    let boosted_factor = channel_factor.factor as i16 * boost;
+                    let boosted_factor = (channel_factor.factor as i16).wrapping_mul(boost);
                     let layer = channel_layer(channel_factor.src_channel, channels, channel_size);
                     for i in 0..channel_size {
-                        aux[dest_base + i] +=
-                            image[layer + i * channels_in_index].into() * boosted_factor;
+                        let value: i16 = image[layer + i * channels_in_index].into();
+                        aux[dest_base + i] =
+                            aux[dest_base + i].wrapping_add(value.wrapping_mul(boosted_factor));
                     }
                 }
             }
@@ -330,7 +333,8 @@ impl ColorTransformProgram {
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
                 aux[dest_base + i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;
+                let value: i16 = image[layer + i * channels_in_index].into();
+                aux[dest_base + i] = aux[dest_base + i].wrapping_add(value.wrapping_mul(boost));
             }
 
             is_channel_transformed[channel_transform.dest_channel] = true;
@@ -341,7 +345,8 @@ impl ColorTransformProgram {
                 let dest_base = channel * channel_size;
                 let layer = channel_layer(channel, channels, channel_size);
                 for i in 0..channel_size {
-                    aux[dest_base + i] = image[layer + i * channels_in_index].into() * boost;
+                    let value: i16 = image[layer + i * channels_in_index].into();
+                    aux[dest_base + i] = value.wrapping_mul(boost);
                 }
             }
         }
@@ -397,14 +402,16 @@ impl ColorTransformProgram {
 
             for channel_factor in &channel_transform.channel_factors {
                 for i in 0..channel_size {
-                    transform_temp[i] += aux[channel_factor.src_channel * channel_size + i]
-                        * channel_factor.factor as i16;
+                    transform_temp[i] = transform_temp[i].wrapping_add(
+                        aux[channel_factor.src_channel * channel_size + i]
+                            .wrapping_mul(channel_factor.factor as i16),
+                    );
                 }
             }
 
             for i in 0..channel_size {
                 transform_temp[i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
 
-- 
2.43.0


From 862ff206cff573d445a1469bf9a2b6f1df7289d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 09/14] fix: reject header values that can't be encoded

Zero layers, channels or chroma scale and block size 1 underflow in encode and
lead to division by zero in compression.
---
 src/header/builder.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..6e7f324 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,14 +19,16 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        let layers = check_range(u32::from(self.layers), 0, 1 << 16, "Layers")? as u16;
+        let channels = check_range(u32::from(self.channels), 0, 1 << 16, "Channels")? as u16;
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
         let layer_size = channel_size
-            .checked_mul(self.layers as usize)
+            .checked_mul(layers as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
         let image_size = layer_size
-            .checked_mul(self.channels as usize)
+            .checked_mul(channels as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("Image size is too large")))?;
         let _bit_depth_image_size = image_size
             .checked_mul((bit_depth as usize + 7) / 8)
@@ -38,13 +40,13 @@ impl HeaderBuilder {
             version: 1,
             width,
             height,
-            layers: self.layers,
-            channels: self.channels,
+            layers,
+            channels,
             bit_depth,
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
-            chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            chroma_scale: check_range(u16::from(self.chroma_scale), 0, 256, "Chroma scale")? as u8,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 2daab38bea238900b21b9a7aaa8283a154d11602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 10/14] fix: choose the same Turbo run coder in downsampled
 decompression

The choice depends on quality * step, but decode gets downsampled step, so blocks
compressed without run coder were decoded with it.
---
 src/compress/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 2f8ce42..343a76f 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -379,6 +379,12 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    let quality = if header.encoder == header::Encoder::Turbo {
+                        // Turbo compares quality * step to 2048, and step is downsampled here
+                        (quality << downsampling.min(11)).min(2048)
+                    } else {
+                        quality
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 41bb96b4641fac53f54f9d8a3b0f9df9ca7c203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 11/14] fix: return a point of interest beyond supplied data

When the data ended right after block sizes of a level, which is where previous
point of interest leads, the same point was returned again.
---
 src/compress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 343a76f..6f19006 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -315,7 +315,7 @@ pub fn decompress_image_data(
         }
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
-        if buffer_remainder.len() <= block_sizes_storage_size {
+        if buffer_remainder.len() < block_sizes_storage_size {
             break;
         }
 
-- 
2.43.0


From ce63e1b72b1633549d169a6218852fff691d2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 12/14] fix: don't process samples beyond the channels of the
 image

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 6f19006..069d3b4 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -58,9 +58,12 @@ fn aux_data_to_2d_channel<'a>(
     downsampling: usize,
 ) -> impl Iterator<Item = (Vec<&'a mut [i16]>, &'a bool)> {
     let channel_size = header.get_downsampled_channel_size(downsampling);
+    // anything beyond the channels of the image isn't a complete channel
+    let channels = usize::from(header.layers) * usize::from(header.channels);
 
     aux_data
         .chunks_mut(channel_size)
+        .take(channels)
         .map(move |chunk| {
             chunk
                 .chunks_mut(header.get_downsampled_width(downsampling))
-- 
2.43.0


From a69da1f1492ed18ebd18b6284517a3dd75d37e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 13/14] fix: leave the caller's image alone in test mode

---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..da1bfae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,12 +61,14 @@ pub fn decompress_simple(
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-    color_transform.detransform_and_to_interleaved(
-        &mut aux_data,
-        &header,
-        header.get_downsampled_channel_size(downsampling),
-        &mut buffer,
-    );
+    if !test {
+        color_transform.detransform_and_to_interleaved(
+            &mut aux_data,
+            &header,
+            header.get_downsampled_channel_size(downsampling),
+            &mut buffer,
+        );
+    }
 
     Ok(next_point_of_interest)
 }
-- 
2.43.0


From e86fe1113be87d113903876a5cbc557fb6bd303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 14/14] fix: don't shift the quality out of range for large
 downsampling

---
 src/compress/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 069d3b4..58cb8bb 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -121,7 +121,8 @@ fn unlift_and_dequantize(
 
             quant::dequantize(
                 image,
-                quality << downsampling,
+                // from QUALITY_MAX * 8 = 1 << 13 on dequantize does nothing
+                quality << downsampling.min(13),
                 0,
                 i32::from(header::QUALITY_MAX) * i32::from(boost),
             );
-- 
2.43.0

