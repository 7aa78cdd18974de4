From 7a1919995caeb0da114e0c243949ad2edd130e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 01/10] fix: keep the cached access pattern and resolution when
 a control register write fails

---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..e9bb95f 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only update the cached values once the camera has accepted the new register value.
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From 277232a7ab43c3880e60e00674f88b0b0db61869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 02/10] fix: avoid integer overflow when calculating delta_v

---
 mlx9064x/src/calculations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..ed05b83 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,8 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    // The difference of two i16 values doesn't always fit in an i16. f32 can represent it exactly.
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 7740f29b4760c9ea1e6fef09a30f40b7d74480a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 03/10] fix: apply the resolution correction in v_dd to the
 measured voltage only

---
 mlx9064x/src/calculations.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index ed05b83..4225b0a 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -173,7 +173,8 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///          \frac{(\text{Resolution}\_\text{corr} - 1) * V\_{DD\_{25}}}{K\_{V\_{DD}}} + V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -188,7 +189,10 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // Only the value read from RAM is scaled by the resolution correction, not V_DD_25.
+    let v_dd_25_correction = (resolution_correction - 1f32) * f32::from(calibration.v_dd_25())
+        / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction + v_dd_25_correction + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 095efce7fc26ee2462f5743af73fc7a94aff437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 04/10] fix: reject truncated MLX90640 EEPROM dumps instead of
 panicking

---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..e1cc8ca 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // The address range is inclusive, and counted in words.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From 33e967385fdf1d332e7ecaa09d254a383050d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 05/10] fix: reject truncated MLX90641 EEPROM dumps instead of
 panicking

---
 mlx9064x/src/mlx90641/eeprom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..9a20e41 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -83,6 +83,13 @@ pub struct Mlx90641Calibration {
 
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
+        // The address range is inclusive, and counted in words.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
+        if data.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         let mut buf = data;
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
-- 
2.43.0


From 5770f4f0934fb0de264bbfb2e5caeed15e10aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 06/10] fix: keep the fractional part of the MLX90640 alpha
 PTAT constant

---
 mlx9064x/src/mlx90640/eeprom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index e1cc8ca..691c768 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -262,7 +262,8 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        // The value in EEPROM is a fixed-point number with two fractional bits
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -381,7 +382,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From 2d8b53b0285a5b212df9996a7b98fc15128ff290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 07/10] fix: avoid integer overflow when decoding MLX90640
 pixel calibration values

---
 mlx9064x/src/mlx90640/eeprom.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 691c768..31fd4da 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright © 2021 Will Ross
+use core::convert::TryFrom;
 use core::iter;
 use core::slice;
 
@@ -91,12 +92,13 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        // The scaled values can be larger than an i16, so all of the intermediate values are i32.
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
@@ -109,7 +111,7 @@ impl Mlx90640Calibration {
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +130,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -260,14 +262,14 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
+        let (mut offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         // The value in EEPROM is a fixed-point number with two fractional bits
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -339,7 +341,7 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
-        offset_reference_pixels
+        offset_pixels
             .iter_mut()
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
@@ -355,19 +357,20 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
                         *offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
                         let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        let alpha_remainder = i32::from(alpha_remainder);
+                        *alpha += (alpha_remainder << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
                         let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
+                            (i32::from(k_ta_rc) + (k_ta_remainder << k_ta_scale2_exp)) as f32;
                         *k_ta = k_ta_numerator / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
@@ -375,6 +378,11 @@ impl Mlx90640Calibration {
                     }
                 },
             );
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
+        for (dest, offset) in offset_reference_pixels.iter_mut().zip(offset_pixels) {
+            *dest = i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset does not fit in 16 bits"))?;
+        }
         Ok(Self {
             k_v_dd,
             v_dd_25,
-- 
2.43.0


From fe20fea59b91c76d502781c287e5f4b91372dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 08/10] fix: treat the MLX90640 average sensitivity as an
 unsigned value

---
 mlx9064x/src/mlx90640/eeprom.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 31fd4da..10bac83 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -87,18 +87,20 @@ impl Mlx90640Calibration {
     ///
     /// Remainder data will be added in afterwards. This function is used for both offset and
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
-    /// and remainder scaling factors.
+    /// and remainder scaling factors. The average is signed for the offset array, but unsigned for the
+    /// sensitivity array, so `read_average` is used to extract it.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
+        read_average: fn(&mut &[u8]) -> i32,
     ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
         // The scaled values can be larger than an i16, so all of the intermediate values are i32.
-        let offset_average = i32::from(data.get_i16());
+        let offset_average = read_average(data);
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
@@ -263,11 +265,11 @@ impl Mlx90640Calibration {
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |data| i32::from(data.get_i16()));
         // The value in EEPROM is a fixed-point number with two fractional bits
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |data| i32::from(data.get_u16()));
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
             alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
-- 
2.43.0


From 5fdcf0bbfd354f2de405208924d443d1b15ae259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 09/10] fix: keep all 16 bits of the MLX90641 average offset

---
 mlx9064x/src/mlx90641/eeprom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 9a20e41..fcad196 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -352,7 +352,7 @@ impl PerPixelCalibration {
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 33f27225919cad1067aa6e70d32e0a2ab36084da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 10/10] fix: avoid integer overflow when decoding MLX90641
 pixel offsets

---
 mlx9064x/src/mlx90641/eeprom.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index fcad196..20268e8 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -2,6 +2,7 @@
 // Copyright © 2021 Will Ross
 
 //! MLX90641-specific EEPROM handling
+use core::convert::TryFrom;
 use core::iter;
 use core::slice;
 
@@ -350,7 +351,6 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average_bytes = get_combined_word(&mut buf)?;
         let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
@@ -364,6 +364,13 @@ impl PerPixelCalibration {
         let k_v_scale1 = f32::from(k_v_scales.0).exp2();
         let k_v_scale2 = f32::from(k_v_scales.1).exp2();
         let alpha_reference = Self::get_sensitivity_reference(&mut buf)?;
+        // The scaled offsets can be larger than an i16. An exponent larger than 31 always puts a
+        // non-zero value out of range, so it's limited to keep the shift itself from overflowing.
+        let scale_offset = |raw_value: i16| {
+            let delta = i64::from(raw_value) << offset_scale.min(31);
+            i16::try_from(i64::from(offset_average) + delta)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset does not fit in 16 bits"))
+        };
         // Both k_v and k_ta use the same calculation to get the per-pixel value from an average
         // and two scaling values.
         let scale_fn = |raw_value: i8, avg: i16, scale1: f32, scale2: f32| {
@@ -435,16 +442,8 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                offset_reference_pixels.0.push(scale_offset(offset_0_raw)?);
+                offset_reference_pixels.1.push(scale_offset(offset_1_raw)?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0

