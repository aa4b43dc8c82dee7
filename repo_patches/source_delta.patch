From 10be97f8b85c9dd0e4394044b3509c0e2aa23720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 1/9] fix: reject overlong digit strings and exponents instead
 of overflowing

---
 src/serde.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..ac8b0f3 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -21,7 +21,7 @@ impl FixedDecimal {
             return Err(Error::ConversionSyntax);
         }
         let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut d: usize = 0; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -66,6 +66,11 @@ impl FixedDecimal {
             // decided not to support Infinities and NaNs now
             return Err(Error::ConversionSyntax);
         }
+        if d > MAX_DIGITS {
+            // no exponent can reduce the number of digits
+            return Err(Error::ConversionSyntax);
+        }
+        let d = d as isize;
         if more_to_proc {
             // has some digits; exponent is only valid sequence now
             let mut nege = false; // negative exponent
@@ -102,18 +107,17 @@ impl FixedDecimal {
                     break;
                 }
             }
-            let firstexp = i; // save exponent digit place
+            // maximum exponent is 65, with sign at most 4 chars
+            // check the length first to avoid overflow of exponent
+            if bs.len() >= i as usize + 4 {
+                return Err(Error::ConversionSyntax);
+            }
             for c in bs[i as usize..].iter() {
                 if *c < b'0' || *c > b'9' {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
                 exp = exp * 10 + *c as i32 - '0' as i32;
-                i += 1
-            }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
             }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
@@ -132,9 +136,9 @@ impl FixedDecimal {
         };
         // apply exponent to frac
         let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +162,7 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        let (frac, digits) = (frac as i8, digits as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
@@ -211,11 +216,11 @@ impl FixedDecimal {
         if frac_units > 0 {
             let mut out = 0; // accumulator in unit
             let mut cut = DIGITS_PER_UNIT as i8;
-            while heading_zeroes >= DIGITS_PER_UNIT as i8 {
+            while heading_zeroes >= DIGITS_PER_UNIT as isize {
                 // current unit filled all zeroes
                 self.lsu[up as usize] = 0;
                 up -= 1;
-                heading_zeroes -= DIGITS_PER_UNIT as i8;
+                heading_zeroes -= DIGITS_PER_UNIT as isize;
             }
             cut -= heading_zeroes as i8;
             // parse fractional part
-- 
2.43.0


From 0059e352da25042325abea83b31b056f10d0de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 2/9] fix: parsing zero with a minus sign yields zero without a
 sign

---
 src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index ac8b0f3..47f2686 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -253,7 +253,7 @@ impl FixedDecimal {
         self.intg = digits - frac;
         self.frac = frac;
         if neg {
-            self.set_neg();
+            self.set_neg_and_check_zero();
         }
         Ok(())
     }
-- 
2.43.0


From 9c935501a9b8f70dda1d60de03e26c3a2ddba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 3/9] fix: addition and subtraction report overflow instead of
 panicking

---
 src/arith.rs   | 33 ++++++++++++++++++++-------------
 src/decimal.rs | 11 +++++++++++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..7269333 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -198,10 +198,14 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.significant_intg_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.significant_intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands do not fit
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +245,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +255,17 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx as usize == MAX_UNITS {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -291,10 +294,14 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.significant_intg_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.significant_intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands do not fit
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +374,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..40447c1 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -111,6 +111,17 @@ impl FixedDecimal {
         get_units(self.intg())
     }
 
+    /// number of integral units, leading units that are zero excluded.
+    #[inline]
+    pub(crate) fn significant_intg_units(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut n = self.intg_units();
+        while n > 0 && self.lsu[frac_units + n - 1] == 0 {
+            n -= 1;
+        }
+        n
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
-- 
2.43.0


From 520754f987c2e3b9d0d5342eafe9dddbfd6b0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 4/9] fix: multiplication sizes its result by significant
 digits and never panics

---
 src/arith.rs   | 21 +++++++++++++--------
 src/decimal.rs | 12 +++++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 7269333..25ad762 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -396,10 +396,11 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    // leading zeroes of operands must not reduce the room for the result
+    let res_intg_digits = lhs.significant_intg() + rhs.significant_intg();
+    let res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -412,9 +413,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
+    let liu = lhs.significant_intg_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.significant_intg_units();
     let rfu = rhs.frac_units();
     // because result fractional part may be truncated, we need to calculate
     // how many units has to be shifted and can be ignored in calculation.
@@ -446,7 +447,10 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            // whole row is truncated
+            continue;
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
@@ -454,8 +458,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         }
         carry = 0
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
+    res.intg = (res.significant_intg_units() * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
 
diff --git a/src/decimal.rs b/src/decimal.rs
index 40447c1..6f0bbb3 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -1,4 +1,4 @@
-use crate::utils::get_units;
+use crate::utils::{get_units, unit_leading_zeroes};
 use std::hash::{Hash, Hasher};
 use crate::error::{Result, Error};
 
@@ -122,6 +122,16 @@ impl FixedDecimal {
         n
     }
 
+    /// number of integral digits, leading zeroes excluded.
+    #[inline]
+    pub(crate) fn significant_intg(&self) -> usize {
+        let n = self.significant_intg_units();
+        if n == 0 {
+            return 0;
+        }
+        n * DIGITS_PER_UNIT - unit_leading_zeroes(self.lsu[self.frac_units() + n - 1])
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
-- 
2.43.0


From 1ed7ca1af8f14b62cf39d2a39f3f3ef2de760803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 5/9] fix: division and remainder correct the trial quotient as
 Knuth's algorithm D requires

---
 src/arith.rs | 95 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 25ad762..cb42328 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -83,7 +83,7 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
-        div_abs(lhs, rhs, res, incr_frac as isize)?;
+        div_abs(lhs, rhs, res, incr_frac.min(isize::MAX as usize) as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
         }
@@ -522,8 +522,9 @@ fn div_abs(
     if incr_frac < 0 {
         incr_frac = 0;
     }
+    incr_frac = incr_frac.min((MAX_UNITS * DIGITS_PER_UNIT) as isize);
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let mut res_frac_units = to_units(lhs_ext_frac + rhs_ext_frac + incr_frac);
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -544,7 +545,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = to_units(res_intg);
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -554,7 +555,7 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        let res_start_offset = to_units(1 - res_intg) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
         res_intg = 0;
     }
@@ -592,17 +593,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    let mut buf1 = [0i32; MAX_UNITS * 3 + 1]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
+    // extend lhs with enough low units to multiply and subtract the whole divider
+    let buf1_start = res_units + rhs_non_zero as usize;
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -628,7 +631,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -640,13 +643,16 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
+        if qhat >= UNIT as i64 {
+            // qhat cannot be greater or equal to UNIT
+            qhat = UNIT as i64 - 1;
+            rhat = u - qhat * d0;
+        }
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        while rhat < UNIT as i64 && qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
@@ -660,32 +666,28 @@ fn div_abs(
             let mul_v = qhat * buf2[k as usize] as i64 + carry; // mul
             carry = mul_v / UNIT as i64; // update carry
             let mul_v0 = mul_v - carry * UNIT as i64; // in current unit
-            if ms_idx < 0 {
-                let (_, b0) = sub_with_borrow(0, mul_v0 as i32, borrow);
-                borrow = b0;
-            } else {
-                let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
-                buf1[ms_idx as usize] = sub_v;
-                borrow = b0;
-            }
+            let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
+            buf1[ms_idx as usize] = sub_v;
+            borrow = b0;
             k += 1;
             ms_idx += 1;
         }
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut add_carry = 0;
+            for (b1, b2) in buf1[(i - rhs_non_zero) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..rhs_non_zero as usize + 1].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, add_carry);
+                *b1 = r0;
+                add_carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
@@ -698,12 +700,11 @@ fn div_abs(
 /// Modulos two decimals' absolute values.
 fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let lhs_intg = lhs.intg();
-    let liu = get_units(lhs_intg);
+    let liu = lhs.significant_intg_units();
+    let lhs_intg = (liu * DIGITS_PER_UNIT) as i8;
     let lhs_frac = lhs.frac();
     let lfu = get_units(lhs_frac);
-    let rhs_intg = rhs.intg();
-    let riu = get_units(rhs_intg);
+    let riu = rhs.significant_intg_units();
     let rhs_frac = rhs.frac();
     let rfu = get_units(rhs_frac);
     // leading non-zero unit of lhs and rhs
@@ -868,12 +869,15 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
+        if qhat >= UNIT as i64 {
+            qhat = UNIT as i64 - 1;
+            rhat = u - qhat * d0;
+        }
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        while rhat < UNIT as i64 && qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1;
             rhat += d0;
@@ -896,13 +900,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut add_carry = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, add_carry);
+                *b1 = r0;
+                add_carry = c0;
             }
         }
         buf1[(i + 1) as usize] = 0;
@@ -945,6 +952,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     Ok(())
 }
 
+// number of units to hold given digits
+#[inline]
+fn to_units(digits: isize) -> usize {
+    (digits as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT
+}
+
 // NOTE: carry can only be 0 or 1
 #[inline]
 pub(crate) fn add_with_carry(a: i32, b: i32, carry: i32) -> (i32, i32) {
-- 
2.43.0


From 105ded936135bece348e3651b4ad08b02dab81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 6/9] fix: rounding clears new low units, honours every group
 boundary and never leaves a negative zero

---
 src/round.rs | 61 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..efd0a2d 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,5 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_UNITS, UNIT};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -13,10 +13,11 @@ impl FixedDecimal {
     #[inline]
     pub fn round(&mut self, frac: isize) {
         let this_frac = self.frac();
-        let intg_units = self.intg_units();
+        let intg_units = self.significant_intg_units();
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
+            let frac = self.limit_frac(frac, intg_units);
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -24,8 +25,10 @@ impl FixedDecimal {
                 return;
             }
             // copy with offset
-            self.lsu
-                .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            let offset = round_frac_units - frac_units;
+            self.lsu.copy_within(..frac_units + intg_units, offset);
+            self.lsu[..offset].fill(0); // reset lower units to zero
+            self.limit_intg(intg_units);
             self.frac = frac as i8;
             return;
         }
@@ -34,8 +37,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.significant_intg() as isize {
                 self.set_zero();
                 return;
             }
@@ -86,10 +89,11 @@ impl FixedDecimal {
         res.set_zero(); // always clear result first
         res.intg = self.intg; // copy intg with sign for future check
         let this_frac = self.frac();
-        let intg_units = self.intg_units();
+        let intg_units = self.significant_intg_units();
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
+            let frac = self.limit_frac(frac, intg_units);
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -102,6 +106,7 @@ impl FixedDecimal {
             res.lsu[round_frac_units - frac_units..round_frac_units + intg_units]
                 .copy_from_slice(&self.lsu[..frac_units + intg_units]);
             res.intg = self.intg;
+            res.limit_intg(intg_units);
             res.frac = frac as i8;
             return;
         }
@@ -110,8 +115,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.significant_intg() as isize {
                 res.set_zero();
                 return;
             }
@@ -154,14 +159,33 @@ impl FixedDecimal {
         }
         round_half_up(res, intg_units, frac_units, trunc, round_frac, carry);
     }
+
+    /// limits the scale to the room left by integral units.
+    #[inline]
+    fn limit_frac(&self, frac: isize, intg_units: usize) -> isize {
+        let max_frac = ((MAX_UNITS - intg_units) * DIGITS_PER_UNIT) as isize;
+        frac.min(max_frac.max(self.frac() as isize))
+    }
+
+    /// drops leading integral digits that are outside of given units.
+    #[inline]
+    fn limit_intg(&mut self, intg_units: usize) {
+        if self.intg_units() > intg_units {
+            let neg = self.is_neg();
+            self.intg = (intg_units * DIGITS_PER_UNIT) as i8;
+            if neg {
+                self.set_neg();
+            }
+        }
+    }
 }
 
 fn round_half_up(
     fd: &mut FixedDecimal,
     mut intg_units: usize,
-    frac_units: usize,
+    mut frac_units: usize,
     trunc: isize,
-    round_frac: i8,
+    mut round_frac: i8,
     mut carry: i32,
 ) {
     let mut round_idx = div9(trunc as i8);
@@ -238,6 +262,9 @@ fn round_half_up(
         }
         fd.lsu[round_idx] = u;
         round_idx += 1;
+    } else if round_idx > 0 && fd.lsu[round_idx - 1] >= HALF_UNIT {
+        // at edge of one integral unit
+        carry = 1;
     }
     let end_idx = intg_units + frac_units;
     if carry > 0 {
@@ -250,7 +277,15 @@ fn round_half_up(
             }
         }
         if carry > 0 {
-            fd.lsu[end_idx] = 1;
+            let mut top_idx = end_idx;
+            if top_idx == MAX_UNITS && frac_units > 0 {
+                // all remaining units are zero, drop one fractional unit
+                // to make room for the carry
+                top_idx -= 1;
+                frac_units -= 1;
+                round_frac = round_frac.min((frac_units * DIGITS_PER_UNIT) as i8);
+            }
+            fd.lsu[top_idx] = 1;
             intg_units += 1;
         }
     }
@@ -260,7 +295,7 @@ fn round_half_up(
     fd.intg = (intg_units * DIGITS_PER_UNIT) as i8;
     fd.frac = round_frac;
     if neg {
-        fd.set_neg();
+        fd.set_neg_and_check_zero();
     }
 }
 
-- 
2.43.0


From 0fe49c2bc0864ae7c027067bafa5bed5fc775052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 7/9] fix: zero compares equal to zero of the other sign

---
 src/cmp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmp.rs b/src/cmp.rs
index ce03c34..35722cd 100644
--- a/src/cmp.rs
+++ b/src/cmp.rs
@@ -20,8 +20,9 @@ impl PartialOrd for FixedDecimal {
 impl Ord for FixedDecimal {
     #[inline]
     fn cmp(&self, other: &Self) -> Ordering {
-        let lneg = self.is_neg();
-        let rneg = other.is_neg();
+        // zero has no sign
+        let lneg = self.is_neg() && !self.is_zero();
+        let rneg = other.is_neg() && !other.is_zero();
         if lneg {
             if rneg {
                 return cmp_abs(other, self);
-- 
2.43.0


From 44af718e032f2ed4c889ae65bd896ea1782cc639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 8/9] fix: zero of either sign feeds a hasher the same bytes

---
 src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 6f0bbb3..afba20a 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -192,8 +192,8 @@ impl FixedDecimal {
 /// internal units will have different hash code.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        // hash neg flag
-        state.write_u8(if self.is_neg() { 1 } else { 0 });
+        // hash neg flag, zero has no sign
+        state.write_u8(if self.is_neg() && !self.is_zero() { 1 } else { 0 });
         // hash nbr of intg units
         let intg_units = self.intg_units();
         state.write_u8(intg_units as u8);
-- 
2.43.0


From f680ef0f26fb03e8f3f84a3d3451305440b3e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:47 +0000
Subject: [PATCH 9/9] fix: remainder has room for the carry of normalization

A dividend of nine integral groups and a divisor of nine fractional
groups fill the aligned buffer; the unit above it was out of bounds.
---
 src/arith.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arith.rs b/src/arith.rs
index cb42328..9f500e1 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -825,7 +825,7 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2];
+    let mut buf1 = [0i32; MAX_UNITS * 2 + 1]; // one more unit for the carry of normalization
     let mut buf2 = [0i32; MAX_UNITS * 2];
     if norm_factor == 1 {
         buf1[lhs_shift_units as usize..buf1_len as usize]
-- 
2.43.0

