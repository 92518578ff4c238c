From e302c32de2774b35c684ed974e688c9f104a6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 01/39] fix: Bitvector push/insert/append drop the values when
 the new bit has none

Values shorter than the bits made get/into_bits panic and shifted later values.
---
 src/util/bit.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..ae3e7ef 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,25 +77,34 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.push(v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.push(v);
+                vs
+            })
+        });
         self.bits.push(b.bit);
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.insert(i, v);
+                vs
+            })
+        });
         self.bits.insert(i, b.bit);
     }
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
         self.bits.extend(other.bits.into_iter());
-        self.values
-            .as_mut()
-            .map(|vs| ovs.map(|ovs| vs.extend(ovs.into_iter())));
+        self.values = self.values.take().and_then(|mut vs| {
+            ovs.map(|ovs| {
+                vs.extend(ovs.into_iter());
+                vs
+            })
+        });
     }
 
     pub fn into_bits(mut self) -> Vec<Bit<Scalar>> {
-- 
2.43.0


From 48a7f7b692c650e793fc1cd28ec16209e94120e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 02/39] fix: Num::is_equal compares with the bits of the
 bitvector

The allocations are not updated by truncate, shl, shr, reversed, push, pop, insert and append.
---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..65e493b 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = other
+            .bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From 8a2549951e668bff2d30998324d03eb2281a3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 03/39] fix: nat_to_f returns None for a number that is too big
 for the field

It was reduced modulo the field order instead.
---
 src/util/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..e0cad62 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -21,7 +21,7 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 /// Convert a natural number to a field element.
 /// Returns `None` if the number is too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
-    Scalar::from_str_vartime(&format!("{}", n))
+    Scalar::from_str_vartime(&format!("{}", n)).filter(|f| f_to_nat(f) == *n)
 }
 
 /// Convert a `usize` to a field element.
-- 
2.43.0


From 87fca812f084339f22d614e400f4e01a7287aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 04/39] fix: f_to_usize converts every field element that fits
 in a usize

It panicked from 256 on.
---
 src/util/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index e0cad62..4370c57 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -1,6 +1,7 @@
 use byteorder::WriteBytesExt;
 use ff::PrimeField;
 use num_bigint::{BigInt, Sign};
+use num_traits::cast::ToPrimitive;
 use std::io::{self, Write};
 
 fn write_be<F: PrimeField, W: Write>(f: &F, mut writer: W) -> io::Result<()> {
@@ -34,9 +35,8 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
 /// Convert a `usize` to a field element.
 /// Panics if the field is too small.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
-    let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    let n = f_to_nat(n);
+    n.to_usize().expect("field element does not fit in a usize")
 }
 
 #[cfg(test)]
-- 
2.43.0


From cab75eb60de53e569f8cb5eb0208dbefa1b348b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 05/39] fix: LazyCell can be borrowed while another borrow is
 alive

---
 src/util/lazy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..25def62 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,9 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0


From 2ca4bb0cae6721f207aba72914311e676f14797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 06/39] fix: BigNat::concat has limb values only when both
 parts have them

---
 src/mp/bignat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..275fcd6 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -647,11 +647,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         };
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
-        let mut limb_values = other.limb_values.clone();
-        limb_values.as_mut().map(|x| {
-            self.limb_values
-                .as_ref()
-                .map(|y| x.extend(y.iter().cloned()))
+        let limb_values = other.limb_values.clone().and_then(|mut x| {
+            self.limb_values.as_ref().map(|y| {
+                x.extend(y.iter().cloned());
+                x
+            })
         });
         let value = self.value.clone().and_then(|sv| {
             other
-- 
2.43.0


From 75236e10a71b4c5143c1fc0ad70a13b486229d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 07/39] fix: BigNat::sub range-checks the difference

Without it any two numbers have a difference, and sub and min prove nothing.
---
 src/mp/bignat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 275fcd6..d44224d 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -884,6 +884,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        // Verify that the difference is in bounds
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 33d2bb377844a9355b83418ed987aa3a5e9e2b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 08/39] fix: BigNat::min checks that the greater number is at
 least the lesser

It compared with other, so that self could be returned though other is smaller.
---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index d44224d..cc5f8dd 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -979,7 +979,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From d98710e992029148d8aeda6331fad555daa72fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 09/39] fix: less_than and leq shift by 2^(n_bits + 1) above
 126 bits

They shifted by 2^(n_bits + 2), so that neither ever held for 127 bits or more.
---
 src/btc_validation/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..f13e1de 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -123,7 +123,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(2 << (n_bits - 127));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
@@ -189,7 +189,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(2 << (n_bits - 127));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
-- 
2.43.0


From 4979808d394219f3035e61ed70ddd0f17912388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 10/39] fix: less_than and leq constrain the numbers they
 compare

The shifted difference and its low-order bits were free witnesses: any result could be proved.
---
 src/btc_validation/median.rs | 42 ++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index f13e1de..a835938 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,7 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -100,6 +101,43 @@ CS: ConstraintSystem<Scalar>,
     leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)
 }
 
+/// Constrains `shifted` to equal `a - b - offset + 2^(n_bits + 1)`
+/// and `low` to be the number made of its `n_bits + 1` low-order bits.
+fn enforce_shifted_cmp<Scalar, CS> (
+    mut cs: CS,
+    a: &AllocatedNum<Scalar>,
+    b: &AllocatedNum<Scalar>,
+    offset: Scalar,
+    shifted: &AllocatedNum<Scalar>,
+    low: &AllocatedNum<Scalar>,
+    n_bits: usize,
+) -> Result<(), SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    let shift = (0..=n_bits).fold(Scalar::ONE, |s, _| s.double());
+
+    cs.enforce(
+        || "shifted = a - b - offset + 2^(n_bits + 1)",
+        |lc| lc + a.get_variable() - b.get_variable() + (shift - offset, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + shifted.get_variable(),
+    );
+
+    num::Num::from(low.clone()).fits_in_bits(cs.namespace(|| "low bits"), n_bits + 1)?;
+
+    // shifted is low or low + 2^(n_bits + 1)
+    cs.enforce(
+        || "(shifted - low) * (shifted - low - 2^(n_bits + 1)) == 0",
+        |lc| lc + shifted.get_variable() - low.get_variable(),
+        |lc| lc + shifted.get_variable() - low.get_variable() - (shift, CS::one()),
+        |lc| lc,
+    );
+
+    Ok(())
+}
+
 /// Takes two allocated numbers (a, b) and returns
 /// allocated boolean variable with value `true`
 /// if the `a` and `b` are such that a is strictly less than b, 
@@ -155,6 +193,8 @@ where
         Ok(summ)
     }).unwrap();
 
+    enforce_shifted_cmp(cs.namespace(|| "constrain zero shift"), a, b, Scalar::ZERO, &zero_shifted_cmp, &n_bit_zero_cmp, n_bits)?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -221,6 +261,8 @@ where
         Ok(summ)
     }).unwrap();
 
+    enforce_shifted_cmp(cs.namespace(|| "constrain zero shift leq"), a, b, Scalar::ONE, &zero_shifted_cmp, &n_bit_zero_cmp, n_bits)?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
-- 
2.43.0


From a0befc9507f9466e8b8e42359480710d193fb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 11/39] fix: verify_median_timestamp takes the absolute value
 of sign_diff

It always negated it, and accepted every timestamp above the median.
---
 src/btc_validation/median.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index a835938..6d1a036 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -70,8 +70,9 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = AllocatedNum::alloc(cs.namespace(|| "zero"), || Ok(Scalar::ZERO)).unwrap();
+    cs.enforce(|| "const_0 == 0", |lc| lc, |lc| lc, |lc| lc + const_0.get_variable());
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,7 +88,7 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
-- 
2.43.0


From 82a3c7bc7556d2622aa6db5e34d72340364ec67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 12/39] fix: verify_median_timestamp uses the comparison
 results themselves

The signs were computed from fresh witnesses that nothing tied to the comparisons.
---
 src/btc_validation/median.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 6d1a036..522e02a 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -55,14 +54,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::ONE.double()),
             |lc| lc + delta_sign.get_variable(),
         );
 
-- 
2.43.0


From 359d87330c02794bb53d44ee58cc94983502a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 13/39] fix: verify_median_timestamp constrains its constants
 and the number of occurrences

---
 src/btc_validation/median.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 522e02a..f17d903 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -29,6 +29,7 @@ CS: ConstraintSystem<Scalar>,
 
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    cs.enforce(|| "sign_diff starts at 0", |lc| lc, |lc| lc, |lc| lc + sign_diff.get_variable());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
@@ -88,10 +89,17 @@ CS: ConstraintSystem<Scalar>,
     let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    cs.enforce(|| "const_1 == 1", |lc| lc, |lc| lc, |lc| lc + const_1.get_variable() - CS::one());
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + fe_median_occ.get_variable() - &n_median_occurrences.lc(Scalar::ONE),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
-- 
2.43.0


From 1490b00bb95e7dc3a50aa3820ee9e22e942a031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 14/39] fix: the difficulty update enforces the bounds of the
 time span

They were only asserted on the witness: not proved, and a panic without a witness.
---
 src/btc_validation/difficulty_update.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..d32316c 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,5 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
-use bellpepper::gadgets::num::AllocatedNum;
+use bellpepper::gadgets::{boolean::Boolean, num::AllocatedNum};
 use ff::PrimeField;
 use crate::btc_validation::median;
 use crate::mp::bignat::BigNat;
@@ -42,9 +42,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "res_lower holds"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "res_upper holds"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -84,9 +85,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "res lower holds"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "res upper holds"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
-- 
2.43.0


From 139c9dd089d7341bef0dbae5b8778b5c3c35930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 15/39] fix: the difficulty update constrains its constants and
 its time span

The bounds and the two weeks were free witnesses, and the time span that was bounded
was not tied to the one that was multiplied.
---
 src/btc_validation/difficulty_update.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index d32316c..2e1b7c9 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -19,6 +19,7 @@ Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
     let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_lc = t_sum_num.num.clone();
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -38,9 +39,12 @@ CS: ConstraintSystem<Scalar>,
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    cs.enforce(|| "fe_t_sum == t_sum", |lc| lc, |lc| lc, |lc| lc + fe_t_sum.get_variable() - &t_sum_lc);
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "t_sum_lower is constant", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
+    cs.enforce(|| "t_sum_upper is constant", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
@@ -56,6 +60,7 @@ CS: ConstraintSystem<Scalar>,
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "t_ideal_sum is constant", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -84,6 +89,8 @@ CS: ConstraintSystem<Scalar>,
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "t_sum_lower is constant", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
+    cs.enforce(|| "t_sum_upper is constant", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
@@ -91,6 +98,7 @@ CS: ConstraintSystem<Scalar>,
     Boolean::enforce_equal(cs.namespace(|| "res upper holds"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "t_ideal_sum is constant", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
-- 
2.43.0


From 0e671ee5787bca0d97efc1587acd25fa827d4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 16/39] fix: mult_mod rejects a modulus of another limb width

calculate_difficulty_update passed one of 128 bits with operands of 64.
---
 src/btc_validation/difficulty_update.rs | 2 +-
 src/mp/bignat.rs                        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 2e1b7c9..1ae4749 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -99,7 +99,7 @@ CS: ConstraintSystem<Scalar>,
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
     cs.enforce(|| "t_ideal_sum is constant", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index cc5f8dd..9553024 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1073,6 +1073,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         modulus: &Self,
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
+        self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
             (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
-- 
2.43.0


From 3870ce33be408278b2af0d1dff32a7cd6da5e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 17/39] fix: the header step no longer indexes an empty z_out

It panicked on every input.
---
 src/btc_validation/header_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..3d2782a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -406,7 +406,7 @@ where
         // 6. z_out
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
-        let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
+        let mut z_out: Vec<AllocatedNum<F>> = z_i.clone();
         z_out[0] = curr_hash.clone();
         cs.enforce(
             || "current SHA256d hash out", 
-- 
2.43.0


From b37c6399dde6b26dd2f56e83b36f8eaedd3cfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 18/39] fix: the header step decodes nBits and the timestamp

Shifts bind looser than - and +, so the bytes were not the ones meant.
---
 src/btc_validation/header_step.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 3d2782a..1c2c99d 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -190,11 +190,11 @@ where
         let n_bits = header[9] >> 32;
         let b0 = n_bits % 256u64;
         let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
+        let b2 = (n_bits >> 16) % 256u64;
+        let b1 = (n_bits >> 8) % 256u64;
         
         let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
+            let thresh_mantissa = (b1 << 16) + (b2 << 8) + b3;
             let exponent = (b0 - 3) as usize;
 
             let targ: F = if exponent >= 13 {
@@ -269,9 +269,9 @@ where
         let n_time = header[8] % (1 << 32);
         let b_t0 = n_time % 256u64; // 4d
         let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let b_t2 = (n_time >> 16) % 256u64; // c8
+        let b_t1 = (n_time >> 8) % 256u64; // cb
+        let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
-- 
2.43.0


From de7bd484282f7d07d8570ef5e02db7fde2b50d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 19/39] fix: the header step computes the updated target
 without overflow

Shifting a u128 by the exponent of any target in use panicked, as did synthesis without a witness.
---
 src/btc_validation/header_step.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 1c2c99d..8558e09 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,8 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, nat_to_f};
+use crate::OptionExt;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 
@@ -326,22 +327,12 @@ where
 
         let start_time_epoch = z_i[13].clone();
         let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
-
         let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
-
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
+            // keep the precision of the compact encoding
+            let exponent = 8 * (b0 - 3);
+            let bigint_tar = target_calc.value.grab()?;
 
-            Ok(pow_2)
+            nat_to_f(&((bigint_tar >> exponent) << exponent)).ok_or(SynthesisError::Unsatisfiable)
         }).unwrap();
 
         // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
-- 
2.43.0


From 5fc73389266d5acbf0cff487c502011ce7e42a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 20/39] fix: the header step enforces its four checks in the
 circuit

They were asserted on the witness only, so that a proof said nothing about them.
---
 src/btc_validation/header_step.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 8558e09..8cdbe3a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -180,7 +180,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
         
         // 2. Check if current hash <= target
         //
@@ -245,7 +245,7 @@ where
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
@@ -261,7 +261,7 @@ where
 
         // verify median
         let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -277,7 +277,7 @@ where
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
         // 4. Total work addition
         //
-- 
2.43.0


From 14d9c948bb1dc528f246607f0f43cbe8c8814a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 21/39] fix: the header step takes the previous hash from the
 hashed header bits

It was allocated a second time, so that the header with another previous hash could be hashed.
---
 src/btc_validation/header_step.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 8cdbe3a..8afe824 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -145,18 +145,15 @@ where
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
+        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
+        for (i, preimage64) in header.iter().enumerate() {
+            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
+            dummy2.reverse();
+            preimage_vec.append(&mut dummy2);
         }
 
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
-            dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
-        }
+        // bytes 4 to 35 of the header
+        let prev_hash_from_curr_block = &preimage_vec[32..288];
 
         let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
             let mut sum: F = F::ZERO;
@@ -213,13 +210,6 @@ where
         }).unwrap();
 
         // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
-        }
-
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
-- 
2.43.0


From 6bc08a1f90e93b7dff161c6d8ed4a866f2bb93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 22/39] fix: the header step constrains the block hashes to
 their bits

Both field elements were free witnesses.
---
 src/btc_validation/header_step.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 8afe824..789e436 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -112,6 +112,27 @@ where
     }
 }
 
+/// Constrains `num` to be the number whose little-endian bytes are `bits`,
+/// each byte with its high-order bit first.
+fn enforce_packed<F, CS>(mut cs: CS, bits: &[boolean::Boolean], num: &AllocatedNum<F>)
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    cs.enforce(
+        || "num == sum of bits",
+        |lc| {
+            bits.iter().enumerate().fold(lc, |lc, (i, b)| {
+                let exponent = 16 * (i/8) + 7 - i;
+                let coeff = (0..exponent).fold(F::ONE, |c, _| c.double());
+                lc + &b.lc(CS::one(), coeff)
+            })
+        },
+        |lc| lc + CS::one(),
+        |lc| lc + num.get_variable(),
+    );
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -174,6 +195,7 @@ where
 
             Ok(sum)
         }).unwrap();
+        enforce_packed(cs.namespace(|| "last block hash bits"), prev_hash_from_curr_block, &prev_hash);
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
@@ -232,6 +254,7 @@ where
 
             Ok(sum)
         }).unwrap();
+        enforce_packed(cs.namespace(|| "current block hash bits"), &out, &curr_hash);
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-- 
2.43.0


From fb2e389502e8a89d6a298feb25ed4deb1a9369c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 23/39] fix: the header step constrains the timestamp to the
 hashed header bits

---
 src/btc_validation/header_step.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 789e436..580bd27 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -289,6 +289,8 @@ where
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
+        // bytes 68 to 71 of the header
+        enforce_packed(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
-- 
2.43.0


From 7ca39c7eb5066046613082beadc9fa9779f413f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 24/39] fix: the header step constrains the maximum target to
 its constant

---
 src/btc_validation/header_step.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 580bd27..02a59f0 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -303,6 +303,13 @@ where
 
             Ok(max_thresh)
         }).unwrap();
+        let two_112 = F::from_u128(1 << 112);
+        cs.enforce(
+            || "max_target is constant",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + max_target.get_variable() - (F::from_u128(0xFFFF << 96) * two_112, CS::one()),
+        );
 
         let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
             let diff = max_target.get_value().unwrap();
-- 
2.43.0


From 980e8f4e8464b7af3a011cb0333fd00b547539b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 25/39] fix: the header step verifies the median of the
 timestamps in z

The median and the timestamps were constants of the prover, tied to nothing, and computing
them outside of a closure panicked without a witness.
---
 src/btc_validation/header_step.rs | 21 +++++++++++----------
 src/btc_validation/median.rs      | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 02a59f0..c224860 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -262,18 +262,20 @@ where
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
-
         // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new(); 
+            for i in 1..=11 {
+                let timestamp = z_i[i].get_value().unwrap();
+                let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
+                times_vec.push(time32[0]);
+            }
+
+            Ok(F::from(median::compute_median_timestamp(&mut times_vec) as u64))
+        }).unwrap();
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
+        let r_median = median::verify_median_allocated(cs.namespace(|| "median verify"), &median_fe, &z_i[1..=11]).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
@@ -287,7 +289,6 @@ where
         let b_t1 = (n_time >> 8) % 256u64; // cb
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         // bytes 68 to 71 of the header
         enforce_packed(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index f17d903..fd896de 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -27,16 +27,26 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_median_allocated(cs.namespace(|| "verify"), &fe_median, &fe_timestamps)
+}
+
+/// Returns `true` iff `fe_median` is the median of the timestamps `fe_timestamps`.
+/// All of them are assumed to fit in 32 bits, and the number of timestamps to be odd.
+pub fn verify_median_allocated<Scalar, CS> (mut cs: CS, fe_median: &AllocatedNum<Scalar>, fe_timestamps: &[AllocatedNum<Scalar>]) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
     cs.enforce(|| "sign_diff starts at 0", |lc| lc, |lc| lc, |lc| lc + sign_diff.get_variable());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-- 
2.43.0


From 909bc5ccc6a594e53fdc3e3908073f41cd80c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 26/39] fix: size carries for word bounds that are a power of
 two

With max_word equal to the limb base (a shifted well-formed number, say) the largest
carry needs one bit more than log2(2 * max_word / base), so equal numbers were rejected.
---
 src/mp/bignat.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 9553024..1d960a2 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -68,6 +67,14 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
     }
 }
 
+/// The number of bits of the largest carry out of a limb of `limb_width` bits, when words are at
+/// most `max_word`. A carry is at most `(2 * max_word + carry_in) / 2^limb_width`, so all of them
+/// are at most the least fixed point of that map.
+fn max_carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let largest: BigInt = (max_word * 2u8 - 1u8) / int_with_n_ones(limb_width);
+    largest.bits() as usize
+}
+
 #[derive(Clone, PartialEq, Eq)]
 pub struct BigNatParams {
     pub min_bits: usize,
@@ -721,9 +728,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = max_carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -798,9 +803,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = max_carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From 41852f206bafef8bf04dbf12744baf9fb4adaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 27/39] fix: room for the largest quotient in modular
 multiplication and reduction

A modulus of min_bits bits can be as small as 2^(min_bits - 1), so the quotient can have one
bit more than was reserved, and the honest witness failed with Unsatisfiable.
---
 src/mp/bignat.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 1d960a2..14c0b90 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1078,8 +1078,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+        // a modulus of `min_bits` bits is at least 2^(min_bits - 1)
+        let quotient_bits = (self.n_bits() + other.n_bits())
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1149,7 +1150,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        // a modulus of `min_bits` bits is at least 2^(min_bits - 1)
+        let quotient_bits = self
+            .n_bits()
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From be4b63733540cb76a07fc89279bca063f2108dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:59 +0000
Subject: [PATCH 28/39] fix: the remainder of modular multiplication and
 reduction is below the modulus

Nothing bounded the remainder, so self * other = q * m + r was also satisfied by smaller
quotients with a remainder of m or more.
---
 src/mp/bignat.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 14c0b90..d32d120 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1139,6 +1139,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let left_int = BigNat::from_poly(Polynomial::from(left), limb_width, left_max_word);
         let right_int = BigNat::from_poly(Polynomial::from(right), limb_width, right_max_word);
         left_int.equal_when_carried_regroup(cs.namespace(|| "carry"), &right_int)?;
+        remainder.enforce_less_than(cs.namespace(|| "remainder bound"), modulus)?;
         Ok((quotient, remainder))
     }
 
@@ -1187,9 +1188,20 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
         let right_int = BigNat::from_poly(Polynomial::from(right), limb_width, right_max_word);
         self.equal_when_carried_regroup(cs.namespace(|| "carry"), &right_int)?;
+        remainder.enforce_less_than(cs.namespace(|| "remainder bound"), modulus)?;
         Ok(remainder)
     }
 
+    /// Constrain `self` to be less than `other`: their difference is at least one.
+    fn enforce_less_than<CS: ConstraintSystem<Scalar>>(
+        &self,
+        cs: CS,
+        other: &Self,
+    ) -> Result<(), SynthesisError> {
+        let next = self.shift::<CS>(Scalar::ONE);
+        other.sub(cs, &next).map(|_| ())
+    }
+
     /// Combines limbs into groups.
     pub fn group_limbs(&self, limbs_per_group: usize) -> BigNat<Scalar> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
-- 
2.43.0


From 16e8e6a582e3dbc99ddd3bdc34a89c1af94c4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 29/39] fix: carried equality of numbers with different limb
 counts

Limbs beyond the shorter number were forced to zero, although the shorter number can hold
their value in limbs that have not been carried yet, so equal numbers were rejected
(in mult_mod by a shorter operand, for one).
---
 src/mp/bignat.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index d32d120..7dbfc03 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -723,8 +723,16 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // A carry out of the shorter number can make up for a limb of the longer one.
+        if self.limbs.len() != other.limbs.len() {
+            let n = max(self.limbs.len(), other.limbs.len());
+            return self
+                .with_n_limbs::<CS>(n)
+                .equal_when_carried(cs, &other.with_n_limbs::<CS>(n));
+        }
+
+        // We'll propegate carries over the `n` limbs.
+        let n = self.limbs.len();
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -773,23 +781,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             carry_in = Num::from(carry);
         }
-
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From 4a43125aa007e5c6068a0939f79c59d41fd5ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 30/39] fix: the difficulty update bounds the previous target
 so that its limbs are determined

---
 src/btc_validation/difficulty_update.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 1ae4749..78646e0 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -81,6 +81,8 @@ CS: ConstraintSystem<Scalar>,
 
     let prev_tar = num::Num::from((*prev_target).clone());
     let prev_targ = BigNat::from_num(cs.namespace(|| "BigNat previous target"), prev_tar, 64usize, 4usize).unwrap();
+    // targets have at most 224 bits; without a bound, four limbs also encode prev_target + k * modulus
+    prev_targ.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "BigNat previous target fits in 224 bits"), 32usize)?;
 
     // let target = num::Num::from(*curr_target);
     // let _bignat_tar = BigNat::from_num(cs.namespace(|| "BigNat curr_target"), target, 64usize, 2usize).unwrap();
-- 
2.43.0


From f0924f26517646556f240b0cd1f4c963d338dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 31/39] fix: the header step constrains the target to the
 hashed nBits

---
 src/btc_validation/header_step.rs | 48 +++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index c224860..7a62669 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -231,6 +231,54 @@ where
             Ok(targ)
         }).unwrap();
 
+        // bytes 72 to 74 of the header hold the mantissa, byte 75 the exponent:
+        // target = mantissa * 256^(exponent - 3)
+        let mantissa = AllocatedNum::alloc(cs.namespace(|| "target mantissa"), || Ok(F::from((b1 << 16) + (b2 << 8) + b3)))?;
+        enforce_packed(cs.namespace(|| "target mantissa bits"), &preimage_vec[576..600], &mantissa);
+
+        let initial_scale = F::from(1 << 24).invert().unwrap();
+        let mut scale = AllocatedNum::alloc(cs.namespace(|| "target scale"), || Ok(initial_scale))?;
+        cs.enforce(
+            || "target scale starts at 256^(-3)",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + scale.get_variable() - (initial_scale, CS::one()),
+        );
+
+        let mut factor = F::from(256);
+        for (i, bit) in preimage_vec[600..608].iter().rev().enumerate() {
+            if i >= 5 {
+                // 256^32 and above do not fit in the field
+                boolean::Boolean::enforce_equal(cs.namespace(|| format!("exponent bit {}", i)), bit, &boolean::Boolean::constant(false))?;
+                continue;
+            }
+
+            let next = AllocatedNum::alloc(cs.namespace(|| format!("target scale {}", i)), || {
+                let mut next = scale.get_value().grab()?.clone();
+                if *bit.get_value().grab()? {
+                    next.mul_assign(&factor);
+                }
+
+                Ok(next)
+            })?;
+            cs.enforce(
+                || format!("target scale {} = target scale * 256^(2^{} * bit)", i, i),
+                |lc| lc + scale.get_variable(),
+                |lc| lc + CS::one() + &bit.lc(CS::one(), factor - F::ONE),
+                |lc| lc + next.get_variable(),
+            );
+
+            scale = next;
+            factor = factor.square();
+        }
+
+        cs.enforce(
+            || "target = mantissa * target scale",
+            |lc| lc + mantissa.get_variable(),
+            |lc| lc + scale.get_variable(),
+            |lc| lc + target.get_variable(),
+        );
+
         // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
-- 
2.43.0


From aa523be071c5c6e912e320243ddaf97f9d5478ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 32/39] fix: the header step constrains the updated target to
 the calculated one

---
 src/btc_validation/header_step.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 7a62669..7a2c62a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -406,6 +406,31 @@ where
             nat_to_f(&((bigint_tar >> exponent) << exponent)).ok_or(SynthesisError::Unsatisfiable)
         }).unwrap();
 
+        // calculated_target = target_calc rounded down to a multiple of the scale
+        let rounding = AllocatedNum::alloc(cs.namespace(|| "target rounding"), || {
+            let exponent = 8 * (b0 - 3);
+            let bigint_tar = target_calc.value.grab()?.clone();
+
+            nat_to_f(&(&bigint_tar - ((&bigint_tar >> exponent) << exponent))).ok_or(SynthesisError::Unsatisfiable)
+        })?;
+        let target_calc_limbs = target_calc.as_limbs::<CS>();
+        cs.enforce(
+            || "target_calc = calculated_target + rounding",
+            |lc| {
+                let base = F::from_u128(1 << 64);
+                let mut coeff = F::ONE;
+                target_calc_limbs.iter().fold(lc, |lc, limb| {
+                    let sum = lc + (coeff, &limb.num);
+                    coeff.mul_assign(&base);
+                    sum
+                })
+            },
+            |lc| lc + CS::one(),
+            |lc| lc + calculated_target.get_variable() + rounding.get_variable(),
+        );
+        let r_rounding = median::less_than(cs.namespace(|| "rounding below scale"), &rounding, &scale, 224usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "rounding is below scale"), &r_rounding, &boolean::Boolean::constant(true))?;
+
         // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
         
         // Either the counter z_i[14] is non-zero or curr_target = calc_target = z_i[12] * t_sum / (2016*10*60)
-- 
2.43.0


From 513ec944c81222da7ad098fdc9889c2b4ca66ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 33/39] fix: the header step accepts hashes of at most 224 bits
 only

---
 src/btc_validation/header_step.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 7a2c62a..3bb8364 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -113,8 +113,9 @@ where
 }
 
 /// Constrains `num` to be the number whose little-endian bytes are `bits`,
-/// each byte with its high-order bit first.
-fn enforce_packed<F, CS>(mut cs: CS, bits: &[boolean::Boolean], num: &AllocatedNum<F>)
+/// each byte with its high-order bit first. Numbers of more than 224 bits, the
+/// width of the comparisons with targets, are not accepted.
+fn enforce_packed<F, CS>(mut cs: CS, bits: &[boolean::Boolean], num: &AllocatedNum<F>) -> Result<(), SynthesisError>
 where
     F: PrimeField,
     CS: ConstraintSystem<F>,
@@ -131,6 +132,12 @@ where
         |lc| lc + CS::one(),
         |lc| lc + num.get_variable(),
     );
+
+    for (i, bit) in bits.iter().enumerate().skip(224) {
+        boolean::Boolean::enforce_equal(cs.namespace(|| format!("bit {} is zero", i)), bit, &boolean::Boolean::constant(false))?;
+    }
+
+    Ok(())
 }
 
 impl<F> StepCircuit<F> for BlockHeader <F>
@@ -195,7 +202,7 @@ where
 
             Ok(sum)
         }).unwrap();
-        enforce_packed(cs.namespace(|| "last block hash bits"), prev_hash_from_curr_block, &prev_hash);
+        enforce_packed(cs.namespace(|| "last block hash bits"), prev_hash_from_curr_block, &prev_hash)?;
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
@@ -234,7 +241,7 @@ where
         // bytes 72 to 74 of the header hold the mantissa, byte 75 the exponent:
         // target = mantissa * 256^(exponent - 3)
         let mantissa = AllocatedNum::alloc(cs.namespace(|| "target mantissa"), || Ok(F::from((b1 << 16) + (b2 << 8) + b3)))?;
-        enforce_packed(cs.namespace(|| "target mantissa bits"), &preimage_vec[576..600], &mantissa);
+        enforce_packed(cs.namespace(|| "target mantissa bits"), &preimage_vec[576..600], &mantissa)?;
 
         let initial_scale = F::from(1 << 24).invert().unwrap();
         let mut scale = AllocatedNum::alloc(cs.namespace(|| "target scale"), || Ok(initial_scale))?;
@@ -302,7 +309,7 @@ where
 
             Ok(sum)
         }).unwrap();
-        enforce_packed(cs.namespace(|| "current block hash bits"), &out, &curr_hash);
+        enforce_packed(cs.namespace(|| "current block hash bits"), &out, &curr_hash)?;
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
@@ -339,7 +346,7 @@ where
 
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         // bytes 68 to 71 of the header
-        enforce_packed(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
+        enforce_packed(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp)?;
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
-- 
2.43.0


From e1776933fd1c6efa3aaa5c48b2a0a0a00e8109c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 34/39] fix: the work of a block is the maximum target over its
 target, rounded down

---
 src/btc_validation/header_step.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 3bb8364..717602c 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -11,6 +11,7 @@ use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
 use crate::util::convert::{f_to_nat, nat_to_f};
+use crate::util::num::Num;
 use crate::OptionExt;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
@@ -381,13 +382,32 @@ where
         }).unwrap();
 
         // Constrain allocation:
-        // max_target = target * block_work
+        // max_target / scale = mantissa * block_work + remainder, remainder < mantissa
+        // so that block_work is max_target / target rounded down
+        let max_mantissa = AllocatedNum::alloc(cs.namespace(|| "maximum target over scale"), || {
+            let scale_inv: Option<F> = scale.get_value().grab()?.invert().into();
+
+            Ok(*max_target.get_value().grab()? * scale_inv.ok_or(SynthesisError::DivisionByZero)?)
+        })?;
         cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
-            |lc| lc + block_work.get_variable(),
+            || "max_target = max_mantissa * scale",
+            |lc| lc + max_mantissa.get_variable(),
+            |lc| lc + scale.get_variable(),
             |lc| lc + max_target.get_variable(),
         );
+        let remainder = AllocatedNum::alloc(cs.namespace(|| "work remainder"), || {
+            Ok(*max_mantissa.get_value().grab()? - *mantissa.get_value().grab()? * *block_work.get_value().grab()?)
+        })?;
+        cs.enforce(
+            || "max_mantissa - remainder = mantissa * block_work",
+            |lc| lc + mantissa.get_variable(),
+            |lc| lc + block_work.get_variable(),
+            |lc| lc + max_mantissa.get_variable() - remainder.get_variable(),
+        );
+        Num::from(block_work.clone()).fits_in_bits(cs.namespace(|| "work fits in 64 bits"), 64usize)?;
+        Num::from(remainder.clone()).fits_in_bits(cs.namespace(|| "work remainder fits in 24 bits"), 24usize)?;
+        let r_work = median::less_than(cs.namespace(|| "work remainder below mantissa"), &remainder, &mantissa, 24usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "work remainder is below mantissa"), &r_work, &boolean::Boolean::constant(true))?;
 
         // 5. Target update
         //
-- 
2.43.0


From 8418b91e8e5624843d4f3a5d31640af08a1eaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 35/39] fix: the block counter starts over after 2015

---
 src/btc_validation/header_step.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 717602c..12b6687 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -565,17 +565,30 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
+        let last_ctr = AllocatedNum::alloc(cs.namespace(|| "last counter"), || Ok(F::from(2015u64)))?;
+        cs.enforce(
+            || "last counter is constant",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + last_ctr.get_variable() - (F::from(2015u64), CS::one()),
+        );
+        let r_last_ctr = BigNat::equals(cs.namespace(|| "is the counter the last one?"), &z_i[14], &last_ctr)?;
+
         z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
+            if *r_last_ctr.get_value().grab()? {
+                return Ok(F::ZERO);
+            }
+
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
         }).unwrap();
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = z_i[14] + 1, or 0 after 2015",
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &r_last_ctr.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From 70e8a306cb37450d715ba06a7ffdc384cb03b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 36/39] fix: the header step scales the target by the time span
 of the last epoch

---
 src/btc_validation/header_step.rs | 36 +++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 12b6687..f83fa73 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -423,8 +423,16 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
+        // the span of the last epoch, when a new one starts; two weeks, which change nothing, otherwise
+        let two_weeks = F::from(2016 * 10 * 60u64);
+        let time_span = AllocatedNum::alloc(cs.namespace(|| "time span"), || {
+            if z_i[14].get_value().grab()?.is_zero().unwrap_u8() == 1 {
+                Ok(*z_i[11].get_value().grab()? - *z_i[13].get_value().grab()?)
+            } else {
+                Ok(two_weeks)
+            }
+        })?;
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &time_span).unwrap();
         let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
             // keep the precision of the compact encoding
             let exponent = 8 * (b0 - 3);
@@ -502,6 +510,30 @@ where
             |lc| lc,
         );
 
+        // Constrain:
+        // time_span = z_i[11] - z_i[13] if z_i[14] is zero, else two weeks
+        cs.enforce(
+            || "time_span - two_weeks = (z_i[11] - z_i[13] - two_weeks) * (1 - t)",
+            |lc| lc + z_i[11].get_variable() - z_i[13].get_variable() - (two_weeks, CS::one()),
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + time_span.get_variable() - (two_weeks, CS::one()),
+        );
+
+        // A new epoch starts with this block if z_i[14] is zero
+        let start_time_epoch = AllocatedNum::alloc(cs.namespace(|| "start time epoch"), || {
+            if z_i[14].get_value().grab()?.is_zero().unwrap_u8() == 1 {
+                Ok(*curr_timestamp.get_value().grab()?)
+            } else {
+                Ok(*z_i[13].get_value().grab()?)
+            }
+        })?;
+        cs.enforce(
+            || "start_time_epoch - curr_timestamp = (z_i[13] - curr_timestamp) * t",
+            |lc| lc + z_i[13].get_variable() - curr_timestamp.get_variable(),
+            |lc| lc + t.get_variable(),
+            |lc| lc + start_time_epoch.get_variable() - curr_timestamp.get_variable(),
+        );
+
         // Constrain:
         // (curr_target - calc_target) * (t - 1) == 0
         // This enforces that correct `delta_inv` was provided,
-- 
2.43.0


From 07706c87fb3e464de643a84a8daf1919c51848bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 37/39] fix: the rounding of the updated target is not negative

---
 src/btc_validation/header_step.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index f83fa73..5d7efbe 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -463,6 +463,7 @@ where
             |lc| lc + CS::one(),
             |lc| lc + calculated_target.get_variable() + rounding.get_variable(),
         );
+        Num::from(rounding.clone()).fits_in_bits(cs.namespace(|| "rounding fits in 224 bits"), 224usize)?;
         let r_rounding = median::less_than(cs.namespace(|| "rounding below scale"), &rounding, &scale, 224usize)?;
         boolean::Boolean::enforce_equal(cs.namespace(|| "rounding is below scale"), &r_rounding, &boolean::Boolean::constant(true))?;
 
-- 
2.43.0


From 356aec0e9e48dfe64877afe81bb4d468b1d2bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 38/39] fix: truncation keeps no minimum size of the limbs it
 drops

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 7dbfc03..8c5938a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -691,9 +691,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // the low-order limbs may all be zero, whatever the size of `self`
+            new.params.min_bits = 0;
         }
         new
     }
-- 
2.43.0


From 9c6e4c22731cd68e0132e8bb402e24bfb63707b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 39/39] fix: a number scaled by zero has no minimum size

---
 src/mp/bignat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8c5938a..62570e8 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -858,6 +858,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if constant == Scalar::ZERO {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0

