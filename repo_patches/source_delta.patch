From f207d7d14b6984768507d2503dfbec23a93e60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 01/15] fix: do not require a DC Huffman table for DC
 refinement scans

---
 src/decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..91985c4 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -823,7 +823,9 @@ impl<R: Read> Decoder<R> {
         }
 
         // Verify that all required huffman tables has been set.
+        // A DC refinement scan holds raw bits only and needs no table (section G.1.2.1).
         if scan.spectral_selection.start == 0
+            && scan.successive_approximation_high == 0
             && scan
                 .dc_table_indices
                 .iter()
-- 
2.43.0


From 9d589586138c2ba45acc7d9891e18e1850da55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 02/15] fix: keep the SSSE3 IDCT from saturating on
 high-contrast blocks

---
 src/arch/ssse3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arch/ssse3.rs b/src/arch/ssse3.rs
index e0bd2e4..d21cd80 100644
--- a/src/arch/ssse3.rs
+++ b/src/arch/ssse3.rs
@@ -144,7 +144,9 @@ pub unsafe fn dequantize_and_idct_block_8x8(
     #[cfg(target_arch = "x86_64")]
     use std::arch::x86_64::*;
 
-    const SHIFT: i32 = 3;
+    // Two fractional bits leave enough headroom that the saturating additions below do not clip the
+    // intermediate values of high-contrast, coarsely quantised blocks.
+    const SHIFT: i32 = 2;
 
     // Read the DCT coefficients, scale them up and dequantize them.
     let mut data = [_mm_setzero_si128(); 8];
-- 
2.43.0


From d42197704741f37df1c0b2ea94b71bf5d6ad987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 03/15] fix: count the blocks of non-interleaved scans exactly
 and without overflow

---
 src/decoder.rs | 18 ++++--------------
 src/parser.rs  | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 91985c4..2557b59 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -899,26 +899,16 @@ impl<R: Read> Decoder<R> {
         };
 
         // This also affects how many MCU values we read from stream. If it's a non-interleaved stream,
-        // the MCUs will be exactly the block count.
+        // the MCUs will be exactly the blocks that cover the component, without the padding to whole
+        // interleaved MCUs (section A.2.2).
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
-            (
-                components[0].block_size.width,
-                components[0].block_size.height,
-            )
+            frame.component_blocks(&components[0])
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1024,7 +1014,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
diff --git a/src/parser.rs b/src/parser.rs
index b17e7e9..e6f2a22 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,21 @@ impl FrameInfo {
 
         Ok(())
     }
+
+    /// Number of blocks that cover the samples of `component` at full scale, in each direction.
+    pub(crate) fn component_blocks(&self, component: &Component) -> (u16, u16) {
+        let blocks = |size: u16, factor: u8, max: Option<u8>| {
+            let max = u32::from(max.unwrap_or(factor)) * 8;
+            ((u32::from(size) * u32::from(factor) + max - 1) / max) as u16
+        };
+        let h_max = self.components.iter().map(|c| c.horizontal_sampling_factor).max();
+        let v_max = self.components.iter().map(|c| c.vertical_sampling_factor).max();
+
+        (
+            blocks(self.image_size.width, component.horizontal_sampling_factor, h_max),
+            blocks(self.image_size.height, component.vertical_sampling_factor, v_max),
+        )
+    }
 }
 
 fn read_length<R: Read>(reader: &mut R, marker: Marker) -> Result<usize> {
-- 
2.43.0


From 7cfca8043ab435da8b895e57fadfa0b73bc261bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 04/15] fix: interleave the components when no colour transform
 is applied

---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 2557b59..9c2b437 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1466,11 +1466,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (i, component) in data.iter().enumerate() {
+        for (chunk, d) in output.chunks_exact_mut(data.len()).zip(component.iter()) {
+            chunk[i] = *d;
         }
     }
 }
-- 
2.43.0


From 52790877bd28bf31dd5eadd9efad12e3108b3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 05/15] fix: predict from one half when a single bit is left
 after the point transform

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..59018a9 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -199,7 +199,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
+        if input_precision > point_transform {
             1 << (input_precision - point_transform - 1)
         } else {
             0
-- 
2.43.0


From 8d917f9a02176cdf067fc97c1bbf5aa14a66bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 06/15] fix: predict lossless samples from point-transformed
 neighbours

---
 src/decoder/lossless.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 59018a9..05a3176 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -111,7 +111,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +119,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +129,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -170,12 +167,20 @@ impl<R: Read> Decoder<R> {
                                 && mcus_left_until_restart == self.restart_interval - 1,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // Section A.4: the point transform applies to the input of the encoder, so that the
+        // predictions above are made from transformed samples.
+        if scan.point_transform > 0 {
+            for sample in results.iter_mut().flatten() {
+                *sample <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
-- 
2.43.0


From 57be83b20f00e925971cbd88bbbdbcc087b5b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 07/15] fix: restart the lossless predictors at every restart
 interval

---
 src/decoder/lossless.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 05a3176..69f0e14 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,7 +105,7 @@ impl<R: Read> Decoder<R> {
             }
         }
 
-        if scan.predictor_selection == Predictor::Ra {
+        if scan.predictor_selection == Predictor::Ra && self.restart_interval == 0 {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
@@ -134,8 +134,18 @@ impl<R: Read> Decoder<R> {
                 }
             }
         } else {
+            let restart_interval = usize::from(self.restart_interval);
+            let mut first_line = 0;
+
             for mcu_y in 0..height {
                 for mcu_x in 0..width {
+                    // Section H.1.2.1: the predictors start over at each restart interval.
+                    let restart =
+                        restart_interval > 0 && (mcu_y * width + mcu_x) % restart_interval == 0;
+                    if restart {
+                        first_line = mcu_y;
+                    }
+
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
 
@@ -162,9 +172,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            mcu_y - first_line,
+                            restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
-- 
2.43.0


From 2049ab1e0c9d995d7aa03e5c09a6b12809f77d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 08/15] fix: keep the samples of non-interleaved lossless scans
 apart

---
 src/decoder.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9c2b437..331be94 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -414,11 +414,7 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
-                            .filter(|(_, plane)| !plane.is_empty())
-                        {
+                        for (&i, plane) in scan.component_indices.iter().zip(data) {
                             planes_u16[i] = plane;
                         }
                         pending_marker = marker;
-- 
2.43.0


From 7255a7471e4e84dca85f853b8bf1a14e10d67445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 09/15] fix: return lossless samples of up to 8 bits as bytes

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 69f0e14..34ea359 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -264,7 +264,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From 45348e3d59e79cdb18f117a41b9801890c18764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 10/15] fix: refuse subsampled lossless images instead of
 misplacing their samples

---
 src/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 331be94..111b241 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -378,6 +378,17 @@ impl<R: Read> Decoder<R> {
                         frame.image_size.height,
                     )?;
 
+                    // Lossless components are neither upsampled nor decoded in interleaved units of
+                    // more than one sample each.
+                    if frame.coding_process == CodingProcess::Lossless
+                        && component_count > 1
+                        && frame.components.iter().any(|c| {
+                            c.horizontal_sampling_factor != 1 || c.vertical_sampling_factor != 1
+                        })
+                    {
+                        return Err(Error::Unsupported(UnsupportedFeature::SubsamplingRatio));
+                    }
+
                     self.frame = Some(frame);
 
                     if stop_after_metadata {
-- 
2.43.0


From 94cf993622688a31c447429fccf619781a112c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 11/15] fix: decode lossless images at full size whatever scale
 is requested

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e6f2a22..5e6a99a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,6 +118,11 @@ pub struct IccChunk {
 
 impl FrameInfo {
     pub(crate) fn update_idct_size(&mut self, idct_size: usize) -> Result<()> {
+        // There is no transform to scale with in lossless images.
+        if self.coding_process == CodingProcess::Lossless {
+            return Ok(());
+        }
+
         for component in &mut self.components {
             component.dct_scale = idct_size;
         }
-- 
2.43.0


From 7da757cc6b1330373dbe7b05df834b31e40569c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 12/15] fix: return ICC profiles of 255 chunks

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 111b241..f9d2dcb 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 689af3e5bcb3f5b80d803921866e9548e2a54782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:11 +0000
Subject: [PATCH 13/15] fix: report read errors after a trailing restart marker

---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f9d2dcb..7e515b9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1061,7 +1061,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 34ea359..be648d1 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -192,7 +192,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From 3cebf3c4d36a3c5277e78dfae68e4ee93335eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 14/15] fix: enforce the decoding buffer limit in bytes and
 before allocating

---
 src/decoder.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7e515b9..52d28d0 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -408,6 +408,9 @@ impl<R: Read> Decoder<R> {
                     let frame = self.frame.clone().unwrap();
                     let scan = parse_sos(&mut self.reader, &frame)?;
 
+                    // Refuse images that are too large before anything is allocated for them.
+                    self.check_decoding_buffer_size(&frame)?;
+
                     if frame.coding_process == CodingProcess::DctProgressive
                         && self.coefficients.is_empty()
                     {
@@ -621,6 +624,26 @@ impl<R: Read> Decoder<R> {
         })
     }
 
+    fn check_decoding_buffer_size(&self, frame: &FrameInfo) -> Result<()> {
+        // Only lossless images have samples of more than 8 bits.
+        let sample_bytes = if frame.precision > 8 { 2 } else { 1 };
+
+        if frame
+            .components
+            .len()
+            .checked_mul(sample_bytes)
+            .and_then(|m| m.checked_mul(frame.output_size.width.into()))
+            .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .map_or(true, |m| self.decoding_buffer_size_limit < m)
+        {
+            return Err(Error::Format(
+                "size of decoded image exceeds maximum allowed size".to_owned(),
+            ));
+        }
+
+        Ok(())
+    }
+
     fn decode_planes(
         &mut self,
         worker: &mut dyn Worker,
@@ -635,17 +658,7 @@ impl<R: Read> Decoder<R> {
 
         let frame = self.frame.as_ref().unwrap();
 
-        if frame
-            .components
-            .len()
-            .checked_mul(frame.output_size.width.into())
-            .and_then(|m| m.checked_mul(frame.output_size.height.into()))
-            .map_or(true, |m| self.decoding_buffer_size_limit < m)
-        {
-            return Err(Error::Format(
-                "size of decoded image exceeds maximum allowed size".to_owned(),
-            ));
-        }
+        self.check_decoding_buffer_size(frame)?;
 
         // If we're decoding a progressive jpeg and a component is unfinished, render what we've got
         if frame.coding_process == CodingProcess::DctProgressive
-- 
2.43.0


From 495512fbaecbbed0717ac0eb4d2c96569583a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:39 +0000
Subject: [PATCH 15/15] fix: accept progressive scans with a point transform of
 8 to 13

---
 src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5e6a99a..aa32c5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -425,12 +425,6 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
     let predictor_selection;
     let point_transform = successive_approximation_low;
 
-    if point_transform >= frame.precision {
-        return Err(Error::Format(
-            "invalid point transform, must be less than the frame precision".to_owned(),
-        ));
-    }
-
     if frame.coding_process == CodingProcess::DctProgressive {
         predictor_selection = Predictor::NoPrediction;
         if spectral_selection_end > 63 || spectral_selection_start > spectral_selection_end ||
@@ -453,6 +447,11 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
         }
     }
     else if frame.coding_process == CodingProcess::Lossless {
+        if point_transform >= frame.precision {
+            return Err(Error::Format(
+                "invalid point transform, must be less than the frame precision".to_owned(),
+            ));
+        }
         if spectral_selection_end != 0 {
             return Err(Error::Format("spectral selection end shall be zero in lossless scan".to_owned()));
         }
-- 
2.43.0

