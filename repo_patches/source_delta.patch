From c1c3c4c93dd537c8a9d12a116a9b7a4b7097963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:19 +0000
Subject: [PATCH 01/40] fix: UBigInt::rem_u32_mut overflows u32 for divisors
 above 2^16

---
 src/ubigint/arith/rem.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..e19dc56 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From cde7711f8213edaffe1e2d3136bc397fda565701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 02/40] fix: BigInt arithmetic with i32::MIN overflows in abs()

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
-- 
2.43.0


From ca72e22cf37d5bf7c4e77b584ca512d3902cadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:24 +0000
Subject: [PATCH 03/40] fix: BigInt i32 comparisons panic on large values
 (eq_i32, neq_i32) and on i32::MIN

---
 src/bigint/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
-- 
2.43.0


From 4406c15abb823f69c7c00aef7edf32e30653fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:24 +0000
Subject: [PATCH 04/40] fix: BigInt::from_i32/from_i64/from_i128 overflow on
 MIN

---
 src/bigint/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
-- 
2.43.0


From a88eab266d800cb470c3af6aa24536c793698cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:24 +0000
Subject: [PATCH 05/40] fix: BigInt::to_i128 rejects i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..1936a8b 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= i128::MIN.unsigned_abs() {
+                Ok((n as i128).wrapping_neg())  // i128::MIN.abs() > i128::MAX.abs()
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From caaac1b84bcbee1c6bff4dc926c0157db3427940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:24 +0000
Subject: [PATCH 06/40] fix: usize::try_from(UBigInt) rejects values that fit
 in usize

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From e657d4fbd7a2ad3c03c0505d88475bd02aea5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 07/40] fix: Ratio division by zero and zero denominators
 produce 1/0 instead of panicking

div, div_mut, div_i32, div_i32_mut and from_denom_and_numer returned a Ratio
whose denominator is zero; div_bi and reci already panic.
---
 src/ratio.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..397b7c7 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {self:?}");
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
-- 
2.43.0


From f4376e2bc6f85d73a3cf30acff56f5a2e40332c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 08/40] fix: Ratio::from_denom_and_numer_i32 overflows on
 i32::MIN and accepts a zero denominator

---
 src/ratio/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..90ef098 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -20,6 +20,11 @@ impl Ratio {
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
     pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+        // `-i32::MIN` doesn't fit in i32, and a zero denominator has to panic
+        if denom == 0 || denom == i32::MIN || numer == i32::MIN {
+            return Ratio::from_denom_and_numer(BigInt::from_i32(denom), BigInt::from_i32(numer));
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
-- 
2.43.0


From c6ba372e4776201b05eac4956530eda946b40a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 09/40] fix: Ratio::pow_i32 overflows on an exponent of
 i32::MIN

---
 src/ratio/arith/pow.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
-- 
2.43.0


From e724ec3037c7d7fa5d934225015fa5b752cb2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 10/40] fix: gcd_i32 overflows when an operand is i32::MIN

---
 src/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..9e41e9a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,9 +32,10 @@ pub fn remove_suffix_0(vec: &mut Vec<u32>) {
     }
 }
 
-pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
-    a = a.abs();
-    b = b.abs();
+/// It panics if the result is `2^31`, which doesn't fit in i32.
+pub fn gcd_i32(a: i32, b: i32) -> i32 {
+    let mut a = a.unsigned_abs();
+    let mut b = b.unsigned_abs();
 
     while a != 0 {
         let r = b % a;
@@ -42,7 +43,7 @@ pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
         a = r;
     }
 
-    b
+    b.try_into().unwrap()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1b755e227c9c8d1bab9c2841924b1b2748af8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 11/40] fix: Ratio::from_string rejects separators after
 leading zeros, like 0.0_5

---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 90ef098..725d83e 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -492,7 +492,7 @@ impl Ratio {
 fn get_non_decimal_char(s: &str) -> Option<char> {
     for c in s.chars() {
         match c.to_ascii_lowercase() {
-            '-' | '0' | '.' => { continue; },
+            '-' | '0' | '.' | '_' => { continue; },
             x if x.is_digit(10) => { return None; },
             _ => { return Some(c); },
         }
-- 
2.43.0


From bf73b327a6f596f356d466c18a3021470a0a1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 12/40] fix: Ratio::from_string panics on 0e-2147483648

---
 src/ratio/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 725d83e..055558f 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -192,8 +192,8 @@ impl Ratio {
 
         // exponential_part is a multiple of 2 and 5. So, it uses `rem_i32(2)` and `rem_i32(5)` instead of `rem_bi` for gcd
         // -> that's much faster
-        if exponential_part != 0 {
-            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.abs() as u32);
+        if exponential_part != 0 && !result.is_zero() {
+            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.unsigned_abs());
 
             if exponential_part > 0 {
                 while result.denom.rem_pow2(2).is_zero() && exponential_part_bi.rem_pow2(2).is_zero() {
-- 
2.43.0


From 3545de06cbd287a7705dd4047d41e5c1d445eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 13/40] fix: Ratio::to_approx_string prints fewer digits than
 it has room for near 1e-7

---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 055558f..5225fe6 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -356,7 +356,7 @@ impl Ratio {
             let mut self_clone = self.abs();
             let mut exp = -1;
 
-            if log10i64 < -6 {
+            if log10i64 < -5 {
                 let pow10 = -log10i64;
                 let mut pow2 = pow10;
                 let mut pow5 = pow10;
-- 
2.43.0


From 281f95958cb9ce58b9e0abebf526e50f70640c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 14/40] fix: UBigInt::pow_u32 overflows u32 for exponents of
 2^31 and above

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From a623cabe53564cf27c938d2b6c789b35de8a90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:21 +0000
Subject: [PATCH 15/40] fix: Ratio::to_ieee754_f32/f64 loses the rounding carry
 and returns infinities

The rounding step dropped the carry into the exponent (2147483647 became half
of itself as an f32), values in [2^128, 2^129) became infinities or NaNs, and
subnormals were rounded twice.
---
 src/ratio/convert/ieee754.rs | 94 ++++++++++++------------------------
 1 file changed, 32 insertions(+), 62 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..150c1f4 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -73,49 +73,34 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac();
+        // `self_clone` is in [1, 2). There are 23 bits below the point, less if the result is denormalized.
+        let frac_bits = 23 - (-126 - exp).max(0);
+
+        let (mut frac, frac_rem) = if frac_bits >= 0 {
+            self_clone.mul_bi(&BigInt::exp2(frac_bits as u64)).truncate_and_frac()
+        } else {
+            self_clone.div_bi(&BigInt::exp2(-frac_bits as u64)).truncate_and_frac()
+        };
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i32().unwrap() as u32;
-
-        if exp < -126 {
-            frac += 1 << 23;
-            frac *= 16;
+        let frac = frac.to_i32().unwrap() as u32;
 
-            if exp < -127 {
-                frac >>= (-127 - exp).min(31);
-                exp = -127;
-            }
+        // `frac` includes the implicit bit (if it's not denormalized), and rounding up may carry to the exponent
+        let result = (((exp + 126).max(0) as u32) << 23) + frac;
 
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
-        }
-
-        exp += 127;
-
-        if exp < 0 || exp > 255 {
+        if result >= 255 << 23 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u32) << 31) | ((exp as u32) << 23) | frac;
-        let rp = &result as *const u32 as *const f32;
+        if result == 0 {
+            return Ok(0.0);
+        }
 
-        unsafe { Ok(*rp) }
+        Ok(f32::from_bits(((neg as u32) << 31) | result))
     }
 
     /// If you don't know what `ieee754` is, you're okay to use this function.
@@ -189,49 +174,34 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
+        // `self_clone` is in [1, 2). There are 52 bits below the point, less if the result is denormalized.
+        let frac_bits = 52 - (-1022 - exp).max(0);
+
+        let (mut frac, frac_rem) = if frac_bits >= 0 {
+            self_clone.mul_bi(&BigInt::exp2(frac_bits as u64)).truncate_and_frac()
+        } else {
+            self_clone.div_bi(&BigInt::exp2(-frac_bits as u64)).truncate_and_frac()
+        };
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i64().unwrap() as u64;
-
-        if exp < -1022 {
-            frac += 1 << 52;
-            frac *= 16;
+        let frac = frac.to_i64().unwrap() as u64;
 
-            if exp < -1023 {
-                frac >>= (-1023 - exp).min(63);
-                exp = -1023;
-            }
+        // `frac` includes the implicit bit (if it's not denormalized), and rounding up may carry to the exponent
+        let result = (((exp + 1022).max(0) as u64) << 52) + frac;
 
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
-        }
-
-        exp += 1023;
-
-        if exp < 0 || exp > 2047 {
+        if result >= 2047 << 52 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u64) << 63) | ((exp as u64) << 52) | frac;
-        let rp = &result as *const u64 as *const f64;
+        if result == 0 {
+            return Ok(0.0);
+        }
 
-        unsafe { Ok(*rp) }
+        Ok(f64::from_bits(((neg as u64) << 63) | result))
     }
 }
 
-- 
2.43.0


From 030032a799a6c1664e500c54d5379ff39b28f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 16/40] fix: UBigInt::sqrt overflows for values near 2^64

---
 src/ubigint/funcs.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..719d20a 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -323,10 +323,14 @@ fn sqrt_u64(n: u64) -> u64 {
 
     let mut result = d / (1 << 28);
 
+    // `result` may exceed the square root for a while, so its square may not fit in u64
+    let n = n as u128;
+    let square = |r: u64| r as u128 * r as u128;
+
     // see the comments in `UBigInt::sqrt`
-    let mut div = (n.abs_diff(result * result) / (2 * result)).max(1);
+    let mut div = ((n.abs_diff(square(result)) / (2 * result as u128)) as u64).max(1);
 
-    if n > result * result {
+    if n > square(result) {
         result += div;
     }
 
@@ -339,7 +343,7 @@ fn sqrt_u64(n: u64) -> u64 {
     }
 
     else {
-        div = n.abs_diff(result * result) / (2 * result);
+        div = (n.abs_diff(square(result)) / (2 * result as u128)) as u64;
 
         if div == 0 {
             div = 2;
@@ -347,7 +351,7 @@ fn sqrt_u64(n: u64) -> u64 {
     }
 
     loop {
-        while result * result < n {
+        while square(result) < n {
             result += div;
         }
 
@@ -355,14 +359,14 @@ fn sqrt_u64(n: u64) -> u64 {
 
         if div < 4 { div = 1; }
 
-        while result * result > n {
+        while square(result) > n {
             result -= div;
         }
 
         div /= 4;
 
         if div == 0 {
-            #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
+            #[cfg(test)] assert!(square(result) <= n && n <= square(result + 1));
 
             return result;
         }
-- 
2.43.0


From eeb8ad7f30b3636da6e0a98669b16169ab8c532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 17/40] fix: F192::from(Ratio) loses the rounding carry and
 returns a negative number

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..0fa39de 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -302,7 +302,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 5481d3fee7842d9646aa0b031c1da46a095c6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 18/40] fix: converting an F192 below 1 to an integer overflows
 a shift

---
 src/fp192/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 0fa39de..e8d9beb 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -44,6 +44,11 @@ impl F192 {
             return Err(());
         }
 
+        // it's less than 1
+        if EXP_COEFF - self.exp > 127 {
+            return Ok(0);
+        }
+
         let digits = self.digits | SIGN_MASK;
 
         Ok(digits >> (EXP_COEFF - self.exp))
-- 
2.43.0


From 3799c5a710b55e8a4663e6ef1291a49cba33854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 19/40] fix: conversions between F192 and i128 fail on
 i128::MIN

---
 src/fp192/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e8d9beb..41e52f0 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
@@ -58,8 +58,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From 48a99db67845a6286c4fd8d6d92cd92828572320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 20/40] fix: F192::mul_i32 overflows on a carry out of the
 digits and on i32::MIN

---
 src/fp192/arith/mul.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..ef897c4 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
@@ -71,7 +71,14 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits.wrapping_add(rem) / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From 89ca89daedba96446e39fb4f567e106b9782a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 21/40] fix: F192::div_i32 overflows on i32::MIN

---
 src/fp192/arith/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
-- 
2.43.0


From 5cddd70ebf34b9d5867d109ce79ecdfee9980026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 22/40] fix: F192::div returns 0 for 0 / 0 instead of panicking

---
 src/fp192/arith/div.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index e19f07b..7466740 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -6,12 +6,12 @@ impl F192 {
     // TODO: it takes too long
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div(&self, other: &Self) -> Self {
-        if self.is_zero() {
-            return F192::ZERO;
+        if other.is_zero() {
+            panic!("Attempt to divide by zero");
         }
 
-        else if other.is_zero() {
-            panic!("Attempt to divide by zero");
+        else if self.is_zero() {
+            return F192::ZERO;
         }
 
         let s = self.abs();
-- 
2.43.0


From cecb2607961d9acfaa23e2ab07e0c5c2810b512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:11 +0000
Subject: [PATCH 23/40] fix: F192::powi overflows on i64::MIN

---
 src/fp192/funcs/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 0f5f344..aa07749 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -47,7 +47,7 @@ impl F192 {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn powi(&self, n: i64) -> Self {
-        let n_abs = n.abs() as u64;
+        let n_abs = n.unsigned_abs();
         let result = powi_abs(self, n_abs);
 
         if n < 0 {
-- 
2.43.0


From 6c0b5b362e3719b7ed0b6a8238391fab65b54a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:38 +0000
Subject: [PATCH 24/40] fix: F192 to f32/f64 returns NaN just above the range
 and wrong subnormals

---
 src/fp192/convert.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 41e52f0..6ff55b0 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -186,6 +186,16 @@ impl From<F192> for f32 {
         // 254 = 127 + 127 = f32 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 254;
 
+        if exp < 1 {
+            // subnormal: the number is `digits * 2^(exp - 105)` in units of the smallest one
+            let mant = match u32::try_from(104 - exp) {
+                Ok(shift) if shift < 128 => (((n.digits | SIGN_MASK) >> shift) + 1) >> 1,
+                _ => 0,
+            };
+
+            return f32::from_bits(((n.is_neg() as u32) << 31) | mant as u32);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -195,9 +205,7 @@ impl From<F192> for f32 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp > 255 {
+        if exp >= 255 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -220,6 +228,16 @@ impl From<F192> for f64 {
         // 1150 = 1023 + 127 = f64 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 1150;
 
+        if exp < 1 {
+            // subnormal: the number is `digits * 2^(exp - 76)` in units of the smallest one
+            let mant = match u32::try_from(75 - exp) {
+                Ok(shift) if shift < 128 => (((n.digits | SIGN_MASK) >> shift) + 1) >> 1,
+                _ => 0,
+            };
+
+            return f64::from_bits(((n.is_neg() as u64) << 63) | mant as u64);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -229,9 +247,7 @@ impl From<F192> for f64 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp > 2047 {
+        if exp >= 2047 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From e221a79ac81c33325c23c00d1be9a000f3c25da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 25/40] fix: F192::from_str reads 0.000...05 with 39 or more
 leading zeros as 0

---
 src/fp192/convert/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index e17c1fe..f86d719 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -106,7 +106,11 @@ impl FromStr for F192 {
                 },
                 ParseState::ReadSubZero => {
                     if c.is_ascii_digit() {
-                        digit_buffer.push(c);
+                        // leading zeros are not significant digits
+                        if c != '0' || !digit_buffer.is_empty() {
+                            digit_buffer.push(c);
+                        }
+
                         exp -= 1;
                     }
 
-- 
2.43.0


From 35626a40b5073b54ace967d51abc4285c684300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 26/40] fix: F192::from_str ignores the sign of -0x10 and
 accepts 0x

---
 src/fp192/convert/string.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index f86d719..f3c5548 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -138,6 +138,10 @@ impl FromStr for F192 {
                 Ok(F192::ZERO)
             },
             ParseState::ReadBase(base) => {
+                if digit_buffer.is_empty() {
+                    return Err(ConversionError::NoData);
+                }
+
                 let mut curr = 0;
                 let mut exp = 1;
                 let mut result = F192::ZERO;
@@ -163,6 +167,10 @@ impl FromStr for F192 {
                     result = result.add(&F192::from(curr));
                 }
 
+                if is_neg {
+                    result = result.neg();
+                }
+
                 Ok(result)
             },
             ParseState::ReadDigit
-- 
2.43.0


From b0bc1dcc9170a3e92fc04119203c513b1fe90b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 27/40] fix: F192::from_str accepts 1e and overflows on
 0.5e-9223372036854775808

---
 src/fp192/convert/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index f3c5548..65926fe 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -176,8 +176,8 @@ impl FromStr for F192 {
             ParseState::ReadDigit
             | ParseState::ReadSubZero
             | ParseState::ReadExp => {
-                if !exp_buffer.is_empty() {
-                    exp += exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?;
+                if let ParseState::ReadExp = curr_state {
+                    exp = exp.saturating_add(exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?);
 
                     if digit_buffer.is_empty() {
                         return Ok(F192::ZERO);
-- 
2.43.0


From fed15036fd730637a587a6e5fedbdf2020d39d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:37 +0000
Subject: [PATCH 28/40] fix: F192::asin is wrong below -1/sqrt(2) and asin and
 atan panic near 1

---
 src/fp192/funcs/atrigo.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fp192/funcs/atrigo.rs b/src/fp192/funcs/atrigo.rs
index dadace4..9a5f3a5 100644
--- a/src/fp192/funcs/atrigo.rs
+++ b/src/fp192/funcs/atrigo.rs
@@ -17,7 +17,7 @@ impl F192 {
             panic!("Math Domain Error: asin({self})");
         }
 
-        if self > &SOME_NUMBER {
+        if result > SOME_NUMBER {
             result = asin_near_one(result);
         }
 
@@ -94,12 +94,18 @@ impl F192 {
     }
 }
 
+// asin(x) = pi/2 - asin(sqrt(1 - x^2))
 fn asin_near_one(x: F192) -> F192 {
-    todo!("F192::asin_near_one")
+    let y = F192::ONE.sub(&x).mul(&F192::ONE.add(&x)).sqrt();
+
+    F192::PI_OVER_2.sub(&y.asin())
 }
 
+// atan(x) = pi/4 - atan((1 - x) / (1 + x))
 fn atan_near_one(x: F192) -> F192 {
-    todo!("F192::atan_near_one")
+    let y = F192::ONE.sub(&x).div(&F192::ONE.add(&x));
+
+    F192::PI_OVER_4.sub(&y.atan())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 97421ae78c42acaa6803804c18ffeb00269c6262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 29/40] fix: F192::sqrt is off by 2.5% when the mantissa is
 close to 2^128

---
 src/fp192/funcs/sqrt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp192/funcs/sqrt.rs b/src/fp192/funcs/sqrt.rs
index 92f0b28..a83dcbc 100644
--- a/src/fp192/funcs/sqrt.rs
+++ b/src/fp192/funcs/sqrt.rs
@@ -54,7 +54,8 @@ fn isqrt(n: u128) -> u128 {
     x = (x + n / x) >> 1;
     let x2 = (x + n / x) >> 1;
 
-    x.min(x2)
+    // it has to fit in 64 bits
+    x.min(x2).min(u64::MAX as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From aaee45d8e93d72122f40c730dfbf0d61a4231fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:33 +0000
Subject: [PATCH 30/40] fix: F192::div is wrong when an exponent is beyond 2^39

---
 src/fp192/arith/div.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 7466740..ebc1bba 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -1,5 +1,5 @@
 use crate::F192;
-use crate::fp192::SIGN_MASK;
+use crate::fp192::{EXP_COEFF, SIGN_MASK};
 
 impl F192 {
 
@@ -14,9 +14,10 @@ impl F192 {
             return F192::ZERO;
         }
 
-        let s = self.abs();
-        let o = other.abs();
-        let approx = self.fast_log2() - other.fast_log2();
+        // the quotient of the mantissas, so that it does not depend on the exponents
+        let s = F192 { digits: self.digits & !SIGN_MASK, exp: EXP_COEFF };
+        let o = F192 { digits: other.digits & !SIGN_MASK, exp: EXP_COEFF };
+        let approx = s.fast_log2() - o.fast_log2();
 
         let (mut min, mut max) = (
             F192::fast_pow2(approx - 1048576),
@@ -36,6 +37,14 @@ impl F192 {
             }
 
             if min.step_epsilon() == max {
+                let exp = max.exp as i128 + self.exp as i128 - other.exp as i128;
+
+                if exp < 0 {  // underflow
+                    return F192::ZERO;
+                }
+
+                max.exp = u64::try_from(exp).expect("overflow");
+
                 return if self.is_neg() != other.is_neg() {
                     max.neg()
                 } else {
-- 
2.43.0


From 3f68d74df458de85aa0a92cd17a769c151bcaa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 31/40] fix: F192::sub runs out of memory when the exponents
 are far apart

---
 src/fp192/arith/sub.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 0ce307d..eb343ad 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -1,4 +1,5 @@
 use crate::{F192, Ratio};
+use crate::fp192::EXP_COEFF;
 
 impl F192 {
 
@@ -22,7 +23,26 @@ impl F192 {
             return self.clone();
         }
 
+        // the smaller one is less than a quarter of the last digit of the larger one
+        if self.exp.abs_diff(other.exp) > 130 {
+            return if self.exp > other.exp { self.clone() } else { other.neg() };
+        }
+
+        // keep the exponents small: `Ratio` has to write them out
+        let exp = self.exp.min(other.exp);
+        let a = F192 { exp: self.exp - exp + EXP_COEFF, ..*self };
+        let b = F192 { exp: other.exp - exp + EXP_COEFF, ..*other };
+
         // TODO
-        Ratio::from(self).sub(&other.into()).into()
+        let mut result: F192 = Ratio::from(a).sub(&b.into()).into();
+
+        let exp = result.exp as i128 - EXP_COEFF as i128 + exp as i128;
+
+        if result.is_zero() || exp < 0 {
+            return F192::ZERO;
+        }
+
+        result.exp = u64::try_from(exp).expect("overflow");
+        result
     }
 }
-- 
2.43.0


From c959ade307b40b4abbbf8c235ada94c44b73c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:29 +0000
Subject: [PATCH 32/40] fix: sqrt_iter of a negative number returns
 -sqrt(abs(x)) instead of sqrt(abs(x))

---
 src/ratio/funcs/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index bb6e310..3652828 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -4,7 +4,7 @@ use crate::{UBigInt, BigInt, Ratio};
 pub fn sqrt_iter(x: &Ratio, iter: usize) -> Ratio {
     Ratio::from_denom_and_numer(
         x.denom.shift_left(1 + iter).sqrt(),
-        x.numer.shift_left(1 + iter).sqrt(),
+        x.numer.abs().shift_left(1 + iter).sqrt(),
     )
 }
 
-- 
2.43.0


From 2d131cea1f077c59e0ef124f008fbb2659d2201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:28 +0000
Subject: [PATCH 33/40] fix: asin_iter wraps its coefficients when iter is
 above 643

---
 src/ratio/funcs/atrigo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ratio/funcs/atrigo.rs b/src/ratio/funcs/atrigo.rs
index fa315e4..ba7696f 100644
--- a/src/ratio/funcs/atrigo.rs
+++ b/src/ratio/funcs/atrigo.rs
@@ -26,8 +26,11 @@ pub fn asin_iter(x: &Ratio, iter: usize) -> Ratio {
     for i in 0..iter {
         result.add_mut(&curr_coeff.mul(&curr_x_coeff));
 
-        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3) * (2 * i + 4)) as i32);
-        curr_coeff.div_i32_mut(((i + 2) * (i + 2) * (2 * i + 5) * 4) as i32);
+        // (2i + 3)^2 / ((2i + 4)(2i + 5)), one factor at a time: the products don't fit in an i32 when `i` is big
+        curr_coeff.mul_i32_mut((2 * i + 3) as i32);
+        curr_coeff.mul_i32_mut((2 * i + 3) as i32);
+        curr_coeff.div_i32_mut((2 * i + 4) as i32);
+        curr_coeff.div_i32_mut((2 * i + 5) as i32);
         curr_x_coeff.mul_mut(&x_sqr);
     }
 
-- 
2.43.0


From 75935bdc890a2a203fc75ab18d3c67eeaa1a9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:51 +0000
Subject: [PATCH 34/40] fix: Polynomial::from_vec_generic keeps leading zero
 coefficients

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From 319809c311864838dbaf9ed5d6fc7d8c2843c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:09 +0000
Subject: [PATCH 35/40] fix: Matrix::inverse of a 1 by 1 matrix returns [[1]]
 instead of the reciprocal

---
 src/matrix/inv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..05f1378 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,8 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                // the minor of a 1 by 1 matrix is the empty determinant, which is 1
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From b2f22ae369ee9f91c2932e0c86b9614f9a06902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:09 +0000
Subject: [PATCH 36/40] fix: cbrt_iter stops getting more accurate next to the
 cube of a simple number

---
 src/ratio/funcs/root.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index 3652828..ed6c54e 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -23,10 +23,11 @@ pub fn cbrt_iter(x: &Ratio, iter: usize) -> Ratio {
     );
     let x_third = x.div_i32(3);
     let two_third = Ratio::from_denom_and_numer_i32(3, 2);
+    let len_x = x.denom.len().max(x.numer.len());
 
     // a2 = a1 - (a1^3 - x)/3a1^2 = a1 * 2/3 + x/3a1^2
     for _ in 0..iter {
-        let len_pre = approx.denom.len().min(approx.numer.len());
+        let len_pre = approx.denom.len().min(approx.numer.len()).max(len_x);
         approx = approx.mul(&two_third).add(&x_third.div(&approx).div(&approx));
         let len_post = approx.denom.len().min(approx.numer.len());
 
-- 
2.43.0


From a5134c91f3d61632268b31c1eaaad8f0a99c744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 37/40] fix: F192::pow2 and from_pow2 of exponents below the
 range return 0

---
 src/fp192/funcs/pow.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index aa07749..27b05d0 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -5,9 +5,11 @@ impl F192 {
     /// 2^n
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn from_pow2(n: i64) -> Self {
-        F192 {
-            digits: 0,
-            exp: (n + EXP_COEFF as i64 - 127) as u64,
+        match (EXP_COEFF - 127).checked_add_signed(n) {
+            Some(exp) => F192 { digits: 0, exp },
+
+            // underflow
+            None => F192::ZERO,
         }
     }
 
@@ -22,6 +24,11 @@ impl F192 {
             exp
         }
 
+        else if self.is_neg() {
+            // underflow
+            return F192::ZERO;
+        }
+
         else {
             panic!("pow2: too big exp")
         };
@@ -40,7 +47,14 @@ impl F192 {
         }
 
         approx = approx.add(&iter);
-        approx.exp = (approx.exp as i64 + exp) as u64;
+        approx.exp = match approx.exp.checked_add_signed(exp) {
+            Some(exp) => exp,
+
+            // underflow
+            None => {
+                return F192::ZERO;
+            },
+        };
 
         approx
     }
-- 
2.43.0


From 5864a4f0eae96aff5abe4b83dc59789c99b47965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 38/40] fix: F192::to_approx_string prints the right exponent
 beyond 10^(2^32)

---
 src/fp192/convert/string.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index 65926fe..ccbd7a3 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -241,8 +241,8 @@ impl F192 {
             return "0".to_string();
         }
 
-        // 2^70777 = 10^21306 + small
-        let approx_log10 = (self.fast_log2() as i128 * 21306 / 70777 / 16777216) as i64;
+        // floor(log2(self)) * log10(2), where log10(2) = 5553023288523357132 / 2^64
+        let approx_log10 = (((self.exp as i128 - EXP_COEFF as i128 + 127) * 5553023288523357132) >> 64) as i64;
         let mut n = self.abs();
         let mut exp = 0i64;
 
@@ -287,11 +287,11 @@ impl F192 {
         let log10_n = log10(n);
 
         let ds = if exp >= 0 {
-            let exp = exp as u32;
+            let log10_n = log10_n as i64;
 
             // small integer
             if exp + log10_n < 10 {
-                (n * 10u128.pow(exp)).to_string()
+                (n * 10u128.pow(exp as u32)).to_string()
             }
 
             else if log10_n == 0 {
@@ -311,7 +311,7 @@ impl F192 {
         }
 
         else {
-            if log10_n >= -exp as u32 {
+            if log10_n as i64 >= -exp {
                 let index = (log10_n as i64 + exp + 1) as usize;
                 let ns = n.to_string();
                 let pre = ns.get(0..index).unwrap();
-- 
2.43.0


From 64edc3af287cf9cb0b0ed0bdee8f5e55210f30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 39/40] fix: Ratio::from(F192) panics instead of wrapping the
 exponent beyond 2^32

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 6ff55b0..bddded4 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -271,7 +271,7 @@ impl From<&F192> for Ratio {
         let e = n.exp as i64 - EXP_COEFF as i64;
 
         let mut result: Ratio = d.into();
-        let e_pow = BigInt::one().mul_pow2(e.abs() as u32);
+        let e_pow = BigInt::one().mul_pow2(u32::try_from(e.unsigned_abs()).expect("the number is too big (or too small) for a Ratio"));
 
         if e < 0 {
             result.div_bi_mut(&e_pow);
-- 
2.43.0


From 63473d98be5e2b1cd62101007232594a398de4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 40/40] fix: prime_factorial overflows on a cofactor above 2^64

---
 src/ubigint/funcs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index 719d20a..941790c 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -249,7 +249,7 @@ impl UBigInt {
 
         let mut div = 3;
 
-        while self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
+        while div < u32::MAX && self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
             while self_clone.rem_u32(div).is_zero() {
                 self_clone.div_u32_mut(div);
                 result.push(UBigInt::from_u32(div));
-- 
2.43.0

