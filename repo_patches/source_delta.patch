From 254b842b178a379d28881cf49de5f7c34591845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 1/8] fix: check the MLX90640 EEPROM dump length in bytes

The length was compared against the number of addresses (less one) instead
of the number of bytes, so a truncated dump panicked instead of returning an
error.
---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..2fc7c41 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // `End` is the last valid address (so it's part of the dump), and each address is a word.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From 4ee417c8708011f6d1eaa03fbba17e43a148446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 2/8] fix: return an error for truncated MLX90641 EEPROM dumps

from_data() panicked when given less than a full EEPROM dump.
---
 mlx9064x/src/mlx90641/eeprom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..297ace7 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -83,6 +83,13 @@ pub struct Mlx90641Calibration {
 
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
+        // `End` is the last valid address (so it's part of the dump), and each address is a word.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
+        if data.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         let mut buf = data;
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
-- 
2.43.0


From e50bef007d8e559281a1aadd95cf23fa3820b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 3/8] fix: keep the fractional part of the MLX90640 alpha PTAT

The datasheet defines it as EE[0x2410] / 2^14 + 8 with two fractional bits;
integer division dropped them.
---
 mlx9064x/src/mlx90640/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 2fc7c41..7676f7f 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -262,7 +262,7 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -381,7 +381,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From 7a9adae18793b4323058d9965a25ef00e82ddfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 4/8] fix: decode the MLX90641 offset average as a 16-bit value

The value is split across two words and is 16 bits wide, but it was being
truncated and sign extended as if it was 11 bits wide.
---
 mlx9064x/src/mlx90641/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 297ace7..b5e5b6b 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -351,8 +351,8 @@ impl PerPixelCalibration {
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
-        let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        // This is a full 16-bit value split across two words.
+        let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 7fc7ed409802e766c0cd127d1bd536bf3a9c63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 5/8] fix: apply the resolution correction only to the measured
 supply voltage

The correction was also being applied to the calibrated voltage at 25 degrees,
so the supply voltage (and every pixel derived from it) was wrong whenever the
ADC resolution differed from the calibrated resolution.
---
 mlx9064x/src/calculations.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..f41589f 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,9 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///          \frac{(\text{Resolution}\_\text{corr} - 1) \* V\_{DD\_{25}}}{K\_{V\_{DD}}} +
+///          V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +189,12 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // The resolution correction only applies to the pixel supply voltage read from the camera, not
+    // to the calibrated voltage that has already been subtracted from it in `delta_v`. This term is
+    // zero when the camera is running at the resolution it was calibrated at.
+    let v_dd_25_correction = (resolution_correction - 1f32) * f32::from(calibration.v_dd_25())
+        / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction + v_dd_25_correction + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 1dac1e1f0f98b9a9669511e60ef5ffde84047f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 6/8] fix: avoid integer overflow when calculating delta V

The difference of the two 16-bit values does not always fit in 16 bits.
---
 mlx9064x/src/calculations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index f41589f..0cd715b 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,8 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    // Subtract as floats, as the difference between two `i16`s may not fit in an `i16`.
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From e954bf5518066ab0e1ad144982a86f8f01954469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 7/8] fix: only cache control register settings after they are
 written

When writing the control register failed, the driver kept using the new
access pattern and resolution even though the camera was still using the old
ones.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..451415c 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only update the cached values once the camera has actually been changed
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From 550012fe5a335ba53d2d27067f61318822434450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 8/8] fix: preserve the reserved bits of the I2C configuration
 register

Reading the register and writing it back cleared every bit other than the
three exposed fields, where the other registers keep their reserved bits.
---
 mlx9064x/src/register.rs | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..f9cd944 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,16 +424,32 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
 
     sda_current_limiter: bool,
+
+    /// The values of the bits not covered by the other fields.
+    ///
+    /// These are kept so that they can be written back to the camera unchanged.
+    reserved: u16,
 }
 
 impl I2cRegister {
+    const FIELDS_MASK: u16 = 0x0007;
+
+    /// The non-reserved fields, for comparisons.
+    fn fields(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+
     /// Check if I²C Fast Mode+ enabled.
     ///
     /// Defaults to enabled.
@@ -476,10 +493,32 @@ impl Default for I2cRegister {
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
+            reserved: 0,
         }
     }
 }
 
+impl PartialEq for I2cRegister {
+    /// This method only compares non-reserved bits between two registers.
+    fn eq(&self, other: &Self) -> bool {
+        self.fields() == other.fields()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.fields().cmp(&other.fields())
+    }
+}
+
 impl Register for I2cRegister {
     fn write_mask() -> [u8; 2] {
         // the fourth bit is documented, but it is "reserved" at 0. It *isn't* documented to always
@@ -509,13 +548,14 @@ impl<'a> From<&'a [u8]> for I2cRegister {
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
+            reserved: raw & !Self::FIELDS_MASK,
         }
     }
 }
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0

