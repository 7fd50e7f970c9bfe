From 6b8b1131efc71da9bfd9ae278cbee3267817bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 01/32] fix: Nat >> n moves whole limbs and drops the emptied
 top limb when n >= 32

---
 src/bigint/nat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..8504163 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -482,6 +482,8 @@ impl Nat {
                 *a = (r & mask_h) | pre;
                 pre = r & mask_l;
             });
+        } else if num > 0 {
+            v.rotate_left(num);
         }
         v.truncate(v.len() - num);
         if pre > 0 {
@@ -490,7 +492,7 @@ impl Nat {
                 _ => {},
             };
         } else {
-            if nom > 0 && num == 0 {
+            if nom > 0 {
                 v.pop();
                 if v.len() == 0 {
                     v.push(0);
-- 
2.43.0


From 32d5de06b9245462cf3a37461d4499316b675ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 02/32] fix: 0 << n stays the canonical zero for n >= 32

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 8504163..c45d5b3 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -452,6 +452,7 @@ impl Nat {
         if num > 0 {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
+            self.trim_head_zero();
         }
     }
 
-- 
2.43.0


From 11c463f06f15cdb4317b7c5e95161cfaaf01270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 03/32] fix: Nat * u32 does not leave leading zero limbs

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index c45d5b3..bf6ba76 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -638,6 +638,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 2ad4106cd5c417c195821b10ada1f94fb0578eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 04/32] fix: Nat - u32 does not leave leading zero limbs

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From 86565e8aad8dc25e52bcb4d90d06bec27b2609c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 05/32] fix: x %= x.clone() is 0 instead of a panic

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index bf6ba76..2358eba 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -560,6 +560,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From c9c08edaaded611b47e6c9062478ce6029e0f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:43 +0000
Subject: [PATCH 06/32] fix: Nat::random returns a canonical number

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 2358eba..25fb7a8 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -849,6 +849,7 @@ impl Nat {
                 None => {},
             }
 
+            n.trim_head_zero();
             if &*n< self {
                 break;
             }
-- 
2.43.0


From 7b4770fe5e7a8da659b5137d59db1dda09937256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:44 +0000
Subject: [PATCH 07/32] fix: Miller-Rabin never uses the base 0, which rejects
 every prime

---
 src/bigint/nat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 25fb7a8..d9a0095 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -912,7 +912,13 @@ impl Nat {
         let mut buf = Nat::with_capacity(self.num());
         
         for _ in 0..s {
-            self.random_inner(&mut a, rng);
+            // the base belongs to [1, self)
+            loop {
+                self.random_inner(&mut a, rng);
+                if a != 0u32 {
+                    break;
+                }
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From e7d5b35c3e2f8f9356421fe4bb532fffa4129779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 08/32] fix: Nat::exp does not overflow a shift when the top
 limb of the exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index d9a0095..9422451 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1822,7 +1822,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From e177d71f7b033f88917e91374e8ef877e2f4ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 09/32] fix: Nat::and_not with a NaN operand is NaN

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 9422451..513c2ab 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if rhs.is_nan() {
+            self.clear();
+            return;
+        }
+
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From 2bb5ff8d94b7e8b259dead025998721001d745a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 10/32] fix: BigInt % never produces a negative zero

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..d590c3f 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -465,6 +465,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From e0c19c7f3383266a3005f43bd5df9c13a5361652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 11/32] fix: BigInt / never produces a negative zero

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d590c3f..3ae1688 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 26b87172cc7d7a3aa9ef9da87b069cd22dbd6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 12/32] fix: BigInt | of operands of different sign clears the
 right bits

---
 src/bigint/bigint.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3ae1688..cafc591 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -516,16 +516,13 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            let (x, y1) = if self.sign == Negative {
+                (rhs.nat, self.nat.clone() - 1u32)
             } else {
-                rhs.nat - 1u32
+                (self.nat.clone(), rhs.nat - 1u32)
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            self.nat = y1.and_not(x);
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From 7769689674a20b9f7575cdc30fed57e795a62976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 13/32] fix: BigInt &=, ^= of different signs work when both
 sides share storage

---
 src/bigint/bigint.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index cafc591..89da994 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -488,15 +488,13 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            let (x, y1) = if self.sign == Negative {
+                (rhs.nat, self.nat.clone() - 1u32)
             } else {
-                rhs.nat - 1u32
+                (self.nat.clone(), rhs.nat - 1u32)
             };
-            self.nat.and_not_assign(rhs1);
+            // x & (-y) == x & ^(y-1) == x &^ (y-1)
+            self.nat = x.and_not(y1);
             self.sign = Natural;
         }
     }
@@ -585,16 +583,14 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            let (x, y1) = if self.sign == Negative {
+                (rhs.nat, self.nat.clone() - 1u32)
             } else {
-                rhs.nat - 1u32
+                (self.nat.clone(), rhs.nat - 1u32)
             };
             
-            self.nat ^= rhs1;
+            // x ^ (-y) == x ^ ^(y-1) == ^(x ^ (y-1)) == -((x ^ (y-1)) + 1)
+            self.nat = x ^ y1;
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {
                 Natural
-- 
2.43.0


From 8d13eecf69e3ba6bb222320866706e9d7b596e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 14/32] fix: BigInt::and_not of two negatives clears the right
 bits

---
 src/bigint/bigint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 89da994..9ac526c 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -538,9 +538,9 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let x1 = self.nat.clone() - 1u32;
+                let y1 = rhs.nat - 1u32;
+                self.nat = y1.and_not(x1);
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From ff5dde35b82ba2a94b599ddf78a7893fb9bcb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 15/32] fix: BigInt bitwise assignment of a negative works when
 both sides share storage

---
 src/bigint/bigint.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 9ac526c..c3dded6 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,9 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
-                self.nat |= rhs1;
+                self.nat = (self.nat.clone() - 1u32) | rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
             } else {
@@ -503,9 +502,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
-                self.nat &= rhs1;
+                self.nat = (self.nat.clone() - 1u32) & rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -549,8 +547,7 @@ impl BigInt {
         } else {
             if self.sign == Negative {
                 // (-x) &^ y == ^(x-1) &^ y == ^(x-1) & ^y == ^((x-1) | y) == -(((x-1) | y) + 1)
-                self.nat -= 1u32;
-                self.nat |= rhs.nat;
+                self.nat = (self.nat.clone() - 1u32) | rhs.nat;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -573,9 +570,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
-                self.nat ^= rhs1;
+                self.nat = (self.nat.clone() - 1u32) ^ rhs1;
                 self.sign = Natural;
             } else {
                 // x ^ y == x ^ y
-- 
2.43.0


From 201094b9352d41fee2990cc12e929d15209ef681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 16/32] fix: BigInt::exp applies the sign once for a negative
 base and negative exponent

---
 src/bigint/bigint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index c3dded6..4fe9e92 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -659,7 +659,8 @@ impl BigInt {
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        // for b < 0 the sign is already accounted for in the inverse
+        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !b.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From 40e6fbabef7830a3eab8a1a8d32dbe9afbeb2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 17/32] fix: BigInt {:b} prints the 0b prefix only in the
 alternate form

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 4fe9e92..bb98df8 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1054,7 +1054,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From 7daca51e08be0ed72dbe18dd79fd9d0916022460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 18/32] fix: BigInt::mul_range accepts i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index bb98df8..fd8f816 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -606,7 +606,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b - a) & 1) == 0, (b.wrapping_neg() as u64), (a.wrapping_neg() as u64))
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From 5448004c608e475afb54d8be882a26a73adf7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 19/32] fix: BigInt::is_set_bit of a negative covers every bit
 below bits_len

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index fd8f816..a43a438 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -687,7 +687,7 @@ impl BigInt {
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            if i >= self.bits_len() {None} else {Some(t.is_set_bit(i) != Some(true))}
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From 431c99e1ba85814e262c0776fbef1cd373a9b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 20/32] fix: Rat::from_f64 of a large magnitude scales the
 numerator

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..838f59f 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -100,7 +100,7 @@ impl Rat {
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
             let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {b.nat.shl_inner(&s);} else {a.nat.shl_inner(&s);}
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From 3bcb020f782b5de9040f3694f27649caa7371560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 21/32] fix: Rat::to_f32 of 0 is 0 instead of a panic

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 838f59f..8b9632d 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -163,7 +163,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From c75f5a108f97cc6b55336b41a2a19dafe46d3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 22/32] fix: Rat::to_f32/to_f64 do not report an underflow to 0
 as exact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 8b9632d..d0aa362 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -226,7 +226,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f32 {
             (f, false)
         } else {
             (f, exact)
@@ -313,7 +313,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f64 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 13027d7f56555a32e2f26b6dbb55482f1c9d9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 23/32] fix: the zero Rat is always 0/1

---
 src/bigint/rat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index d0aa362..1eaa7d6 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -324,6 +324,7 @@ impl Rat {
         let mut t = true;
         if self.a.is_nan() || self.a.nat == 0u32 {
             self.a.sign = Natural;
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From dc400b3dbd82856669fd02a0207cc2589eadf88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 24/32] fix: a parsed Rat is in lowest terms

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 1eaa7d6..9d73613 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -724,7 +724,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From b8ea6c29d42a8b88c2fc604a7018df2014782e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 25/32] fix: Rat::from_frac accepts isize::MIN

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 9d73613..b31a0e6 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator).abs(),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From 75e427d07400d2824053d53382d3a53352c55fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:37 +0000
Subject: [PATCH 26/32] fix: Rat::from_frac_bigint with a NaN part is NaN

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index b31a0e6..1b6a90a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -56,7 +56,9 @@ impl Rat {
     }
     
     pub fn from_frac_bigint(numerator: &BigInt, denominator: &BigInt) -> Result<Rat, RatError> {
-        if denominator.nat == 0u32 {
+        if numerator.is_nan() || denominator.is_nan() {
+            Ok(Rat::nan())
+        } else if denominator.nat == 0u32 {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-- 
2.43.0


From fdf9e8d05a466405a02693b64ce13796d76d0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:37 +0000
Subject: [PATCH 27/32] fix: LinearCongruentialRand computes a*x+c without
 wrapping before the modulus

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From eb4393f0322b3f195db2f26a0cb1ab0b3b7535d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 28/32] fix: Mersenne Twister tempering shifts s and t to the
 left

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From 916a8d7e9ed13c235f550c1f06e881a89a6a2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 29/32] fix: LaggedFibonacciRand does not overflow when the
 word size is the type's width

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..a53f1c4 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if (self.state[ps] as u128) >= (self.state[idx] as u128) + (self.carry as u128) {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From ccc37a5534932a30ff557b476f05c59c15c5d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 30/32] fix: prime test accepts a prime for which no Lucas
 parameter is found

For a prime n such that every P up to 10000 gives (P^2-4/n) = 1, the search
ended without a parameter and the test went on with P = 10001, whose symbol
is not -1, and rejected the prime.
---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 513c2ab..b12ac90 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1007,6 +1007,11 @@ impl Nat {
             p += 1;
         }
         
+        // there is no parameter to test with, so n can't be rejected
+        if p > 10000 {
+            return true;
+        }
+        
         // Grantham definition of "extra strong Lucas pseudoprime", after Thm 2.3 on p. 876
         // (D, P, Q above have become Δ, b, 1):
         //
-- 
2.43.0


From bc2ac407702e9b2bfe303bbaffb1bcada1d8e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:18 +0000
Subject: [PATCH 31/32] fix: generate_prime draws again when the random source
 fails

A source that fails on the first draw of a candidate left it without words
and made the unwrap of its last word panic.
---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index b12ac90..7ec844f 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -2001,6 +2001,11 @@ impl Nat {
                 p.as_mut_vec().push(x);
             }
             
+            // the source failed, draw again
+            if p.num() < len {
+                continue;
+            }
+            
             // 清除大于bits_len的位;
             if b != 32 {
                 *p.iter_mut().last().unwrap() &= (1u32 << b) - 1;
-- 
2.43.0


From c8176c1adead15148190e9d62a5445e330964688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 32/32] fix: decimal strings with leading zeros are numbers,
 not errors

---
 src/bigint/nat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 7ec844f..3a2d3a6 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -278,6 +278,8 @@ impl Nat {
                                         Ok((i+2, 2))
                                     } else if x == 'x' || x == 'X' {
                                         Ok((i+2, 16))
+                                    } else if x.is_ascii_digit() {
+                                        Ok((i, 10))
                                     } else {
                                         Err(NatError::new(BeginWithIllegalChar, format!("begin with illegal char {}{}", c,x)))
                                     }
-- 
2.43.0

