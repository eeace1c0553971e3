From 5f4e3fb21e42bc13c5dd0d0a44c1bbdb3e36f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 01/13] fix: correct blocks that hold fewer errors than the
 maximum

The equations for the error locator are singular when a block holds fewer
errors than can be corrected at most, and may need reordering when it does
not; dividing zero by something did not give zero either. Most damaged
blocks were therefore reported as uncorrectable.
---
 src/decode/qr/correct.rs | 28 +++++++++++++++-------------
 src/decode/qr/galois.rs  |  8 ++++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..df90693 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -79,13 +79,16 @@ fn syndrome(block: &[u8], base: GF8) -> GF8 {
 }
 
 fn find_locs(block_info: &BlockInfo, syndromes: &[GF8]) -> Result<Vec<usize>, QRError> {
-    let z = block_info.ec_cap as usize;
-    let mut eq = vec![vec![GF8(0); z + 1]; z];
-    for i in 0..z {
-        eq[i][..=z].clone_from_slice(&syndromes[i..(z + 1 + i)]);
-    }
+    // With fewer errors than the maximum these equations are singular, so look for the
+    // largest number of errors for which they can be solved
+    let sigma = (1..=block_info.ec_cap as usize).rev().find_map(|z| {
+        let mut eq = vec![vec![GF8(0); z + 1]; z];
+        for i in 0..z {
+            eq[i][..=z].clone_from_slice(&syndromes[i..(z + 1 + i)]);
+        }
 
-    let sigma = solve(eq, GF8(0), GF8(1), false);
+        solve(eq, GF8(0))
+    });
 
     let sigma = sigma.ok_or(QRError {
         msg: String::from("Could not calculate SIGMA"),
@@ -123,10 +126,10 @@ fn calculate_distances(syndromes: &[GF8], locs: &[usize]) -> Option<Vec<GF8>> {
         eq[i][locs.len()] = syndromes[i];
     }
 
-    solve(eq, GF8(0), GF8(1), false)
+    solve(eq, GF8(0))
 }
 
-fn solve<T>(mut eq: Vec<Vec<T>>, zero: T, one: T, fail_on_rank: bool) -> Option<Vec<T>>
+fn solve<T>(mut eq: Vec<Vec<T>>, zero: T) -> Option<Vec<T>>
 where
     T: Div<Output = T> + Mul<Output = T> + Sub<Output = T> + Copy + PartialEq,
 {
@@ -141,6 +144,10 @@ where
     }
 
     for i in 0..num_eq {
+        // the equation to normalise needs a nonzero coefficient, if there is none the rank is too low
+        let pivot = (i..num_eq).find(|&j| eq[j][i] != zero)?;
+        eq.swap(i, pivot);
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
@@ -155,11 +162,6 @@ where
                 eq[j][k] = eq[j][k] - (eq[j][i] * eq[i][k]);
             }
         }
-
-        // If the rank is too low, can't solve
-        if fail_on_rank && eq[i][num_coeff - 1] == one {
-            return None;
-        }
     }
 
     let mut solution = vec![zero; num_eq];
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..09ff935 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return EXP8[255];
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
@@ -98,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return EXP4[15];
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From c42d8535b9c5e46715c5ddf9facf57bf3a82e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 02/13] fix: never deliver a block that is still damaged after
 correction

Only the first of the syndromes was looked at after the correction, so about
one in 256 blocks damaged beyond repair was delivered as if it were fine.
The codewords that are reserved for error detection were not used at all.
---
 src/decode/qr/correct.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index df90693..d842e5f 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,9 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    let (all_fixed, _) = calculate_syndromes(&block, block_info);
+
+    if !all_fixed {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,10 +54,13 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    // every error correction codeword provides one syndrome,
+    // also those that are reserved for detecting errors instead of correcting them
+    let num_syndromes = block_info.total_per - block_info.data_per;
+    let mut syndromes = vec![GF8(0); num_syndromes as usize];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
+    for i in 0..num_syndromes {
         syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
         if syndromes[i as usize] != GF8(0) {
             all_fine = false;
-- 
2.43.0


From 3fa397b0f1f9493900cba5e7be8be75f1cd3bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 03/13] fix: correct format information with any three bits
 wrong

Three wrong bits can leave the first syndrome at zero, in which case the
wrong format was used as if it were fine, and an error in the last bit was
never corrected.
---
 src/decode/qr/format.rs | 52 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..e8fe8f3 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -65,41 +65,27 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
 }
 
 fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    // 0 is not the location of an error
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
@@ -108,14 +94,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
+    let (s1, s3, s5) = syndromes(&format);
 
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, all errors have been fixed
         return Ok(format);
     }
 
@@ -124,6 +106,22 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
     })
 }
 
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
+    let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
+
+    for i in 0..format.len() {
+        let bit = GF4(format[format.len() - i - 1]);
+
+        s1 = s1 + bit * EXP4[i % 15];
+        s3 = s3 + bit * EXP4[(3 * i) % 15];
+        s5 = s5 + bit * EXP4[(5 * i) % 15];
+    }
+
+    (s1, s3, s5)
+}
+
 fn error_correction(bytes: u8) -> Option<ECLevel> {
     match bytes {
         0b01 => Some(ECLevel::LOW),
-- 
2.43.0


From 93adfc3686ef57eab2409c26b623cc65721449a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 04/13] fix: keep count of the bits left when chomping within a
 byte

Chomping part of a byte did not reduce the number of bits left. Asking for
more bits than there are was then accepted, and each such request made some
of the bits that are there unavailable. Requests for more than 16 bits were
accepted as well, and a request for up to 16 bits that failed lost some.
---
 src/util/chomp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..c2f916d 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -61,6 +61,10 @@ impl Chomp {
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
         let mut bits = nr_bits;
 
+        if bits > 16 || BitCount(bits as usize) > self.bits_left {
+            return Err(err);
+        }
+
         let mut result: u16 = 0;
         while bits > 8 {
             result = u16::from(self.chomp(8).ok_or_else(|| err.clone())?) << (bits - 8);
@@ -124,6 +128,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From 012dee1bf81a0f9c2beffaf0ad32025637b9d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/13] fix: report digits and characters that do not exist as
 errors

A single alphanumeric character above 44 made the decoder panic, and groups
of digits that exceed their length were delivered as longer ones.
---
 src/decode/qr/data.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..ccbcd98 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -45,7 +45,7 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
     while length > 0 {
         if length >= 3 {
-            let digits = read_bits_u16(chomp, 10)?;
+            let digits = read_digits(chomp, 10, 999)?;
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -53,14 +53,14 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
         }
 
         if length == 2 {
-            let digits = read_bits_u16(chomp, 7)?;
+            let digits = read_digits(chomp, 7, 99)?;
             result.push_str(&format!("{:02}", digits));
 
             break;
         }
 
         if length == 1 {
-            let digits = read_bits_u16(chomp, 4)?;
+            let digits = read_digits(chomp, 4, 9)?;
             result.push_str(&format!("{:01}", digits));
 
             break;
@@ -123,6 +123,13 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
+
+            if chars > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", chars),
+                });
+            }
+
             result.push(ALPHANUMERIC[chars as usize]);
 
             break;
@@ -189,6 +196,18 @@ fn eight_bit(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     Ok(final_result)
 }
 
+fn read_digits(chomp: &mut Chomp, bits: u8, max: u16) -> Result<u16, QRError> {
+    let digits = read_bits_u16(chomp, bits)?;
+
+    if digits > max {
+        return Err(QRError {
+            msg: format!("Invalid digits in numeric data {}", digits),
+        });
+    }
+
+    Ok(digits)
+}
+
 fn read_bits(chomp: &mut Chomp, bits: u8) -> Result<u8, QRError> {
     chomp.chomp_or(
         bits,
-- 
2.43.0


From 7984f23c302694cd3f2ce48662bd61be888ad867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 06/13] fix: report a code that is partially outside of the
 image as an error

---
 src/extract/qr/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..59895e6 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -51,12 +51,20 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
 
         let mut dy = p.dy - 3.0 * p.ddy;
         let mut dx = p.dx - 3.0 * p.ddx;
+        let dims = prepared.dimensions();
         for _ in 0..size {
             let mut line = start - 3.0 * dx;
 
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
+
+                if x >= dims.0 || y >= dims.1 {
+                    return Err(QRError {
+                        msg: String::from("QR Code is partially outside of the image"),
+                    });
+                }
+
                 let pixel = prepared.get_pixel(x, y)[0];
 
                 #[cfg(feature = "debug-images")]
-- 
2.43.0


From 57de67b8acc9bd15b381f654b0b37e6c4db96c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 07/13] fix: check all corners of an alignment pattern against
 the image bounds

---
 src/extract/qr/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 59895e6..2e4836a 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -325,16 +325,23 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
         }
     }
 
-    let top_left = p - 2.0 * dx - 2.0 * dy;
-    if top_left.x < 0.0 || top_left.y < 0.0 {
-        return false;
-    }
-
-    let bottom_right = p + 2.0 * dx + 2.0 * dy;
+    // In a rotated or mirrored QR Code any of the corners can be the one outside of the image
     let dims = prepared.dimensions();
+    let corners = [
+        p - 2.0 * dx - 2.0 * dy,
+        p + 2.0 * dx - 2.0 * dy,
+        p - 2.0 * dx + 2.0 * dy,
+        p + 2.0 * dx + 2.0 * dy,
+    ];
+
+    for corner in &corners {
+        if corner.x < 0.0 || corner.y < 0.0 {
+            return false;
+        }
 
-    if bottom_right.x.round() >= f64::from(dims.0) || bottom_right.y.round() >= f64::from(dims.1) {
-        return false;
+        if corner.x.round() >= f64::from(dims.0) || corner.y.round() >= f64::from(dims.1) {
+            return false;
+        }
     }
 
     for x in -2..2 {
-- 
2.43.0


From cdec6a019f7acf773903bf4003570e452b403c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 08/13] fix: prepare images smaller than a single block

---
 src/prepare/blockedmean.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..5f31110 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -238,7 +238,8 @@ impl Iterator for BlockCoordRangeInclusive {
 fn range(start: BlockCoord, end: BlockCoord) -> BlockCoordRangeInclusive {
     BlockCoordRangeInclusive {
         current: start.0,
-        end: end.0 - 1,
+        // an image smaller than a single block still has that one block
+        end: end.0.saturating_sub(1),
     }
 }
 
-- 
2.43.0


From a387b05fa8f84a4c52a245fd63d4cfae34cee84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 09/13] fix: draw debug images within the height of the image

---
 src/detect/linescan.rs | 4 ++--
 src/extract/qr/mod.rs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..a704749 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -135,11 +135,11 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
-                        if x > x_start + 3 && x < x_end - 3 && y > y_start + 3 && y < y_end - 3 {
+                        if x > x_start + 3 && x + 3 < x_end && y > y_start + 3 && y + 3 < y_end {
                             continue;
                         }
 
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 2e4836a..5707902 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -71,7 +71,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -244,13 +244,13 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
         for x in x_start..x_end {
             for y in y_start..y_end {
-                if x > x_start + 2 && x < x_end - 2 && y > y_start + 2 && y < y_end - 2 {
+                if x > x_start + 2 && x + 2 < x_end && y > y_start + 2 && y + 2 < y_end {
                     continue;
                 }
 
-- 
2.43.0


From 8393a364dd6b7a40ea81a09527e911460de5b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 10/13] fix: find codes that are to the right of or below
 another one

A wide gap between two codes made the first part of the finder behind the gap
look like noise.
---
 src/detect/linescan.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index a704749..bef2edb 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -367,14 +367,15 @@ impl QRFinderPattern {
     }
 
     fn slide(&mut self) {
-        if f64::from(self.6) < f64::from(self.5) / 10.0 && self.4 != 0 {
+        if f64::from(self.6) < f64::from(self.5) / 10.0 && self.5 < 4 * self.4 {
             // we slid last time because the pixels inverted,
             // but it turned out that it was only for a few pixels
             // likely it was just some noise in the image
             // so revert the previous slide call and add the noise to the previous pattern
             //
-            // Only ignore this as noise if this isn't the first shift, since we might just have a
-            // large quiet zone (self.4 == 0).
+            // Only ignore this as noise if this isn't the first shift, and if what came before can
+            // be part of the same finder (the widest part of which is three times as wide as the
+            // part before it), since we might just have a large quiet zone.
             self.6 += self.5;
             self.5 = self.4;
             self.4 = self.3;
-- 
2.43.0


From 4be84af57aa93fdea3f968f5fdb52aa0305f00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 11/13] fix: prepare images without any pixels

---
 src/prepare/blockedmean.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 5f31110..eb8a885 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,6 +34,11 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
+        // there is nothing to prepare in an image without any pixels
+        if input.width() == 0 || input.height() == 0 {
+            return GrayImage::new(input.width(), input.height());
+        }
+
         let grayscale = grayscale(input);
 
         let dimensions = grayscale.dimensions();
-- 
2.43.0


From ee344ee1e460cd35a6cc6299a6b58cc6fd727c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 12/13] fix: refuse to extract a location whose version does
 not exist

A detector that reports one made the extractor overflow, or sample
without end.
---
 src/extract/qr/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 5707902..b0c9f0c 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -35,6 +35,13 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
     fn extract(&self, prepared: &GrayImage, loc: QRLocation) -> Result<QRData, QRError> {
         debug!("LOC {:?}", loc);
 
+        // whatever was detected, there is no QR Code of any other size
+        if loc.version < 1 || loc.version > 40 {
+            return Err(QRError {
+                msg: format!("There is no QR Code of version {}", loc.version),
+            });
+        }
+
         let size = 17 + loc.version * 4;
         let p = determine_perspective(prepared, loc.version, size, &loc)?;
 
-- 
2.43.0


From 06d67e2ff1163a0b04f7ac9ab254013ab744d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 13/13] fix: report a QR Code that is cut off at the left or
 the top as outside of the image

Negative coordinates saturate to 0 when they are cast, so that modules left
of or above the image were read from its first column or row.
---
 src/extract/qr/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index b0c9f0c..f8091ed 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -66,7 +66,9 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
 
-                if x >= dims.0 || y >= dims.1 {
+                // coordinates left of or above the image saturate to 0
+                let outside = line.x.round() < 0.0 || line.y.round() < 0.0;
+                if outside || x >= dims.0 || y >= dims.1 {
                     return Err(QRError {
                         msg: String::from("QR Code is partially outside of the image"),
                     });
-- 
2.43.0

