From d8d21e520dde538dd2c71dd9a9f1af2d2ce97992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 01/24] fix: doubling a point of order two gives the identity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..fff0ecb 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // Doubling a point of order two gives the identity.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // Doubling a point of order two gives the identity.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From 77a24d0bf4f0d6dc07de4d20ca6d38c97839f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 02/24] fix: dividing the zero polynomial returns zero instead
 of panicking

---
 src/polynomial.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..e21bfee 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -297,12 +298,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
-- 
2.43.0


From 520ac48e857778ea8b34193bd218566cf3766c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 03/24] fix: long division by a polynomial with leading zero
 coefficients

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index e21bfee..63384f9 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -249,7 +249,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
-- 
2.43.0


From 67415aa2dae628b29e0841dcb466963227a4540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:29 +0000
Subject: [PATCH 04/24] fix: polynomial division when the quotient or a series
 inverse has zero coefficients

---
 src/polynomial.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 63384f9..b47ae1c 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -273,7 +273,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -287,6 +287,8 @@ impl<F: Field> Polynomial<F> {
             b.trim();
             if b.len() > l {
                 b.drain(l..);
+            } else {
+                b.pad(l);
             }
             a.0.extend_from_slice(&b[..]);
         }
@@ -314,11 +316,11 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let mut rev_q: Polynomial<F> =
+                rev_b_inv.mul(&self.rev()[..=a_degree - b_degree].to_vec().into());
+            rev_q.0.resize(a_degree - b_degree + 1, F::ZERO);
+            // The low coefficients of the quotient may be zero, so reverse the whole vector.
+            let mut q: Polynomial<F> = rev_q.iter().rev().copied().collect::<Vec<_>>().into();
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From a32a71bad8c7a12d51a77e98178771375bba0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 05/24] fix: recursive RescueStepB constraints use the matching
 state element per MDS column

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 4836c82b43129b8078a7da9885f3b2e9f974ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 06/24] fix: recursive CurveAdd and CurveEndo constraints have
 the signs of the native ones

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..af0ba23 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..a81afd1 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From f42d11943e080f1f6e957f93dc9309a2ef32529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 07/24] fix: CurveDblGate witness includes the curve's A
 coefficient

---
 src/gates/curve_dbl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/curve_dbl.rs b/src/gates/curve_dbl.rs
index 3b22814..0200f11 100644
--- a/src/gates/curve_dbl.rs
+++ b/src/gates/curve_dbl.rs
@@ -155,7 +155,7 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
         let y_old = witness.get_wire(y_old_target);
 
         let inverse = y_old.double().multiplicative_inverse().expect("y = 0");
-        let lambda = x_old.square().triple() * inverse;
+        let lambda = (x_old.square().triple() + InnerC::A) * inverse;
         let x_new = lambda.square() - x_old.double();
         let y_new = lambda * (x_old - x_new) - y_old;
 
-- 
2.43.0


From 984a7eb618fea90f3e562e17153d3a77f8746ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 08/24] fix: CurveAddGate depends on the scalar bit its
 generator reads

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index af0ba23..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From 1085c546c846c6f8b15f5ad7ceeab6860aa99aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 09/24] fix: CurveEndoGate witness generation follows the
 gate's constraints

---
 src/gates/curve_endo.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a81afd1..14e0d97 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -216,19 +216,19 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let scalar_acc_unsigned_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_unsigned_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_signed_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
         let scalar_acc_signed_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
 
         let addend_x_target = Wire {
@@ -268,15 +268,15 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         let p_y = witness.get_wire(addend_y_target);
 
         let mut s_i_x = p_x;
-        if scalar_bit_0 == InnerC::BaseField::ONE {
+        if scalar_bit_1 == InnerC::BaseField::ONE {
             s_i_x = s_i_x * InnerC::ZETA;
         }
         let mut s_i_y = p_y;
-        if scalar_bit_1 == InnerC::BaseField::ZERO {
+        if scalar_bit_0 == InnerC::BaseField::ZERO {
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
-        let group_acc_new = group_acc_old + s_i;
+        let group_acc_new = (group_acc_old + s_i).to_affine();
 
         let scalar_acc_unsigned_new =
             scalar_acc_unsigned_old.quadruple() + scalar_bit_0 + scalar_bit_1.double();
@@ -294,8 +294,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         // Here's where our abstraction leaks a bit. Although we already have the sum, we need to
         // redo part of the computation in order to populate the purported inverse wire.
-        let dx = group_acc_old_x - p_x;
-        let _dy = group_acc_old_y - p_y;
+        let dx = group_acc_old_x - s_i_x;
         let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
 
         let mut result = PartialWitness::new();
-- 
2.43.0


From 91df644e024b2e1dd4e2631984e6d8c48fb41350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 10/24] fix: Base4SumGate generates its accumulator;
 assert_all_base_4 assigns unused limbs

---
 src/circuit_builder.rs  | 11 +++++++++++
 src/gates/base_4_sum.rs | 32 ++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..0734179 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // The other limbs are not needed; give them an arbitrary base 4 value.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO,
+                );
+            }
         }
     }
 
diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..1040501 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,37 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        let mut inputs = vec![Self::WIRE_ACC_OLD];
+        inputs.extend((0..Self::NUM_LIMBS).map(Self::wire_limb));
+        inputs
+            .into_iter()
+            .map(|input| {
+                Target::Wire(Wire {
+                    gate: self.index,
+                    input,
+                })
+            })
+            .collect()
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        // The limbs are generated along with the entire decomposition; here we accumulate them.
+        let wire = |input| Wire {
+            gate: self.index,
+            input,
+        };
+        let mut acc = witness.get_wire(wire(Self::WIRE_ACC_OLD));
+        for i in 0..Self::NUM_LIMBS {
+            acc = acc.quadruple() + witness.get_wire(wire(Self::wire_limb(i)));
+        }
+
+        let mut result = PartialWitness::new();
+        result.set_wire(wire(Self::WIRE_ACC_NEW), acc);
+        result
     }
 }
 
-- 
2.43.0


From 5639619a7543f9352331f114dee29f8d610e5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 11/24] fix: assert_dibit_length accumulates the most
 significant dibit first

---
 src/circuit_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 0734179..532327e 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -832,8 +832,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ///
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
-        // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        // Get the purported base 4 decomposition of x, in big-endian order, since the most
+        // significant dibit is accumulated first.
+        let mut dibits = self.split_base_4(x, num_dibits);
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
-- 
2.43.0


From 04f263f2dd472615637f308e0b94a432cff32fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 12/24] fix: deterministic_square_root checks the decomposition
 of the root

---
 src/circuit_builder.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 532327e..d5bbb69 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -527,7 +527,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             f_bits, 254,
             "We currently only handle fields of size 2^254 + epsilon"
         );
-        let (bits, dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
+        let (bits, mut dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
 
         // Verify that x_sqrt * x_sqrt = x.
         let x_sqrt_squared = self.square(x_sqrt);
@@ -537,10 +537,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
+        // Verify the decomposition by taking a weighted sum of the limbs, starting with the most
+        // significant base 4 limb. Since the first bit is always zero, we end by adding the second
+        // bit (scaled by its weight of 2).
+        dibits.reverse();
+        let mut sum = self.zero_wire();
         for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
@@ -550,14 +551,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
             for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
                 self.copy(
                     chunk[i],
                     Target::Wire(Wire {
@@ -565,13 +566,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let two_bit_1 = self.double(bits[1]);
+        sum = self.mul_add(sum, four, two_bit_1);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
-- 
2.43.0


From 3f7be6e0f0f1f180551520177164fa7a5ad9fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 13/24] fix: Challenger draws a fresh output for every
 challenge

absorb_buffered_inputs refilled the output buffer even when there was nothing
to absorb, so consecutive challenges (beta and gamma; v, u and u_scaling) were
all the same value.
---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..34bb2d2 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Nothing new to absorb; keep any outputs which haven't been drawn yet.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Nothing new to absorb; keep any outputs which haven't been drawn yet.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 192b8532f554367f2086dcce7f894c6255adc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 14/24] fix: bind the public inputs to the transcript before
 alpha is drawn

The public inputs of a gate are checked as a combination weighted by powers of
alpha, but alpha was drawn before they were observed, so a prover could pick,
after seeing alpha, other public inputs with the same combination.
---
 src/plonk.rs       | 21 +++++++++++----------
 src/plonk_proof.rs |  8 ++++----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..a3fd182 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -117,9 +117,19 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
+        // Observe the public inputs. This must happen before alpha is drawn, since the public inputs
+        // of a gate are combined with powers of alpha.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta_sf = beta_bf.try_convert::<C::ScalarField>()?;
         let gamma_sf = gamma_bf.try_convert::<C::ScalarField>()?;
@@ -234,20 +244,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..af6e3d3 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -64,6 +64,10 @@ impl<C: HaloCurve> Proof<C> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_affine_points(&self.c_wires);
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
         let gamma = C::try_convert_b2s(gamma_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +76,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
-- 
2.43.0


From 0bed47ffd749c66b81913a8afe363071d6333112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 15/24] fix: the verifier derives its challenges with the
 circuit's security level

The prover uses the circuit's security_bits while Proof::get_challenges always
used 128, so no proof for a circuit with another level could be verified.
---
 src/plonk_proof.rs | 7 ++++---
 src/verifier.rs    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index af6e3d3..8c0c404 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::plonk_challenger::Challenger;
 use crate::plonk_util::{halo_g, halo_n, halo_s};
-use crate::{AffinePoint, AffinePointTarget, Curve, Field, HaloCurve, PartialWitness, Target, SECURITY_BITS};
+use crate::{AffinePoint, AffinePointTarget, Curve, Field, HaloCurve, PartialWitness, Target};
 
 #[derive(Debug, Clone, Copy, Eq, PartialEq, Serialize, Deserialize)]
 pub struct SchnorrProof<C: HaloCurve> {
@@ -60,8 +60,9 @@ impl<C: HaloCurve> Proof<C> {
         &self,
         public_inputs: &[C::ScalarField],
         old_proofs: &[OldProof<C>],
+        security_bits: usize,
     ) -> Result<ProofChallenge<C>> {
-        let mut challenger = Challenger::new(SECURITY_BITS);
+        let mut challenger = Challenger::new(security_bits);
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_affine_points(&self.c_wires);
         challenger.observe_elements(
@@ -97,7 +98,7 @@ impl<C: HaloCurve> Proof<C> {
             challenger.observe_affine_points(&[self.halo_l[i], self.halo_r[i]]);
             let r_bf = challenger.get_challenge();
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
-            let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
+            let r_bits = &r_sf.to_canonical_bool_vec()[..security_bits];
             let u_j_squared = halo_n::<C>(r_bits);
             let u_j = u_j_squared.square_root().ok_or_else(|| {
                 anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..fcf4e7b 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -60,7 +60,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     check_proof_parameters(proof)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
-    let challs = proof.get_challenges(public_inputs, old_proofs)?;
+    let challs = proof.get_challenges(public_inputs, old_proofs, vk.security_bits)?;
 
     // Check the old proofs' openings.
     verify_old_proof_evaluation(old_proofs, &proof, challs.zeta)?;
-- 
2.43.0


From bed619c11bd79a3d7abb7fa78d41bb4ca7bd9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 16/24] fix: the verifier rejects proofs of the wrong shape

The public-input quotient commitment was never checked to be on the curve, and
wrong counts of public inputs, commitments, openings or Halo rounds were
accepted or made the verifier panic instead of being rejected.
---
 src/plonk_proof.rs |  2 +-
 src/verifier.rs    | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 8c0c404..04c1215 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -67,7 +67,7 @@ impl<C: HaloCurve> Proof<C> {
         challenger.observe_affine_points(&self.c_wires);
         challenger.observe_elements(
             &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
+                .map_err(|_| anyhow!("A public input does not fit in both fields."))?,
         );
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
diff --git a/src/verifier.rs b/src/verifier.rs
index fcf4e7b..6ef7f53 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -58,6 +58,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
     check_proof_parameters(proof)?;
+    check_proof_shape(public_inputs, proof, old_proofs, vk)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs, vk.security_bits)?;
@@ -293,6 +294,7 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
@@ -312,6 +314,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
@@ -354,6 +360,43 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
     Ok(())
 }
 
+/// Check that a proof has the shape which the verification key calls for, i.e. that there is the right
+/// number of public inputs, commitments, openings and Halo rounds.
+fn check_proof_shape<C: HaloCurve>(
+    public_inputs: &[C::ScalarField],
+    proof: &Proof<C>,
+    old_proofs: &[OldProof<C>],
+    vk: &VerificationKey<C>,
+) -> Result<()> {
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        proof.c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        proof.c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    ensure!(
+        proof.halo_l.len() == log2_strict(vk.degree),
+        "Incorrect number of Halo rounds."
+    );
+    for opening_set in &[&proof.o_local, &proof.o_right, &proof.o_below] {
+        ensure!(
+            opening_set.o_constants.len() == NUM_CONSTANTS
+                && opening_set.o_plonk_sigmas.len() == NUM_ROUTED_WIRES
+                && opening_set.o_wires.len() == NUM_WIRES
+                && opening_set.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && opening_set.o_old_proofs.len() == old_proofs.len(),
+            "An opening set has an incorrect number of openings."
+        );
+    }
+    Ok(())
+}
+
 /// Reshapes a vector of field elements to a zero-padded matrix of height `NUM_WIRES`.
 fn public_inputs_to_wires_vec<F: Field>(public_inputs: &[F]) -> Vec<Vec<F>> {
     let n = public_inputs.len();
-- 
2.43.0


From 17673566d5f3ead5d3c6b2e9aad1029cb0427b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 17/24] fix: recursive verifier squares powers of zeta and x,
 and binds o_plonk_t

zeta^degree and the powers of x in halo_g_recursive were computed by doubling,
and the public inputs holding the openings of t were not connected to the
proof's openings.
---
 src/plonk_recursion.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 464b125..22b6782 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -187,6 +187,12 @@ pub fn recursive_verification_circuit<
         public_inputs.o_plonk_z_right,
         proof.o_right.o_plonk_z,
     );
+    for i in 0..QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER {
+        builder.copy(
+            public_inputs.o_plonk_t[i],
+            proof.o_local.o_plonk_t[i],
+        );
+    }
     for i in 0..degree_pow {
         builder.copy(public_inputs.halo_us[i], halo_us[i]);
     }
@@ -510,7 +516,7 @@ fn verify_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField
     // Evaluate zeta^degree.
     let mut zeta_power_d = zeta;
     for _i in 0..degree_pow {
-        zeta_power_d = builder.double(zeta_power_d);
+        zeta_power_d = builder.square(zeta_power_d);
     }
 
     // Evaluate Z_H(zeta) = zeta^degree - 1.
@@ -603,7 +609,7 @@ fn halo_g_recursive<C: HaloCurve>(
         let u_i_inv = builder.inv(u_i);
         let term = builder.mul_add(u_i, x_power, u_i_inv);
         product = builder.mul(product, term);
-        x_power = builder.double(x_power);
+        x_power = builder.square(x_power);
     }
     product
 }
-- 
2.43.0


From e6e81ebf56755cf0fb772178408473ff04c2efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 18/24] fix: eval_l_i evaluates to one at its own point

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..961a0e3 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -275,7 +275,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From 9cfb3edd8bb7ace72061a0213728ab3b31bc44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 19/24] fix: plookup pads with table values, and handles any
 witness length

Padding the table with zeros made zero an accepted value of every table with
room for padding, padding the witness with zeros panicked for tables without
zero, and witnesses whose length is a power of two were padded to a smaller
size and panicked.
---
 plookup/src/plookup.rs  | 24 ++++++++++++++----------
 plookup/src/verifier.rs |  8 ++++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 961a0e3..11b409e 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -152,18 +152,22 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     Ok(PlookupProof::from((commitments, openings, halo_proof, n)))
 }
 
+/// Pads the table `t` with its last element, and `f` with an element of `t`, so that padding neither
+/// adds a value to the table nor separates equal values of the table.
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = f.len().next_power_of_two() - 1;
+    assert!(!t.is_empty(), "The table should be non-empty");
+    let n = (f.len().max(t.len() - 1) + 1).next_power_of_two() - 1;
+
+    let mut padded_f = f.to_vec();
+    padded_f.resize(n, t[0]);
+    (n, padded_f, padded_table(t, n + 1))
+}
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
-    (n, f, t)
+/// Pads a table to have length `n` by repeating its last element.
+pub(crate) fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut padded_t = t.to_vec();
+    padded_t.resize(n, t[t.len() - 1]);
+    padded_t
 }
 
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..fde360a 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,11 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(
+        !t.is_empty() && t.len() <= n + 1 && (n + 1).is_power_of_two(),
+        "Incorrect table size"
+    );
+    let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From efd51a11edb7a5682e60dc99bcdbb76cff8daa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 20/24] Hook: in-circuit transcript entry point for the
 verification harness (cfg plonky_verif)

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 42cb6e4..0f51790 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,6 +66,8 @@ mod rescue;
 mod serialization;
 mod target;
 pub mod util;
+#[cfg(plonky_verif)]
+pub mod verif_hooks;
 mod verifier;
 mod witness;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..65d78ee
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,20 @@
+//! Entry points for the verification harness, compiled only with `--cfg plonky_verif`.
+
+use crate::plonk_challenger::RecursiveChallenger;
+use crate::{CircuitBuilder, HaloCurve, Target};
+
+/// Runs the in-circuit transcript over rounds of (observed elements, number of challenges to draw).
+#[allow(clippy::type_complexity)]
+pub fn recursive_challenges<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    rounds: &[(Vec<Target<C::ScalarField>>, usize)],
+) -> Vec<Vec<Target<C::ScalarField>>> {
+    let mut challenger = RecursiveChallenger::new(builder);
+    rounds
+        .iter()
+        .map(|(observed, n)| {
+            challenger.observe_elements(observed);
+            (0..*n).map(|_| challenger.get_challenge(builder)).collect()
+        })
+        .collect()
+}
-- 
2.43.0


From b5f6de18749a3e0af5b441fd27f948a9239346f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 21/24] fix: recursive verifier combines the old proofs'
 commitments with their openings

---
 src/plonk_recursion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 22b6782..c12371d 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -138,6 +138,7 @@ pub fn recursive_verification_circuit<
     let halo_us = verify_all_ipas::<C, InnerC>(
         &mut builder,
         &proof,
+        &old_proofs,
         zeta,
         u,
         v,
@@ -228,6 +229,7 @@ pub fn recursive_verification_circuit<
 fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     builder: &mut CircuitBuilder<C>,
     proof: &ProofTarget<C, InnerC>,
+    old_proofs: &[OldProofTarget<InnerC>],
     zeta: Target<C::ScalarField>,
     u: Target<C::ScalarField>,
     v: Target<C::ScalarField>,
@@ -249,6 +251,7 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
         proof.c_wires.clone(),
         vec![proof.c_plonk_z],
         proof.c_plonk_t.clone(),
+        old_proofs.iter().map(|p| p.halo_g).collect(),
     ]
     .concat();
     let mut c_reduction_muls = Vec::new();
-- 
2.43.0


From 4a575c6b6589e0849028c5adbc0c6bf97920d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 22/24] Hook: stand-in group of discrete logarithms for
 protocol checks (cfg plonky_verif)

---
 src/curve/curve.rs                | 40 +++++++++++++++++++++++++++++++
 src/curve/curve_adds.rs           | 12 ++++++++++
 src/curve/curve_msm.rs            | 18 ++++++++++++++
 src/curve/curve_multiplication.rs |  8 +++++++
 src/verif_hooks.rs                | 30 ++++++++++++++++++++++-
 5 files changed, 107 insertions(+), 1 deletion(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index fff0ecb..314ba04 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -21,6 +21,14 @@ pub trait Curve: 'static + Sync + Sized + Copy + Debug {
 
     const GENERATOR_AFFINE: AffinePoint<Self>;
 
+    /// Whether points stand for their discrete logarithms; see `verif_hooks`.
+    #[cfg(plonky_verif)]
+    const VERIF_LINEAR: bool = false;
+    #[cfg(plonky_verif)]
+    fn verif_scale(_s: Self::ScalarField, _x: Self::BaseField) -> Self::BaseField {
+        unimplemented!()
+    }
+
     const GENERATOR_PROJECTIVE: ProjectivePoint<Self> = ProjectivePoint {
         x: Self::GENERATOR_AFFINE.x,
         y: Self::GENERATOR_AFFINE.y,
@@ -91,6 +99,10 @@ impl<C: Curve> AffinePoint<C> {
     }
 
     pub fn is_valid(&self) -> bool {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR && self.y.is_one() {
+            return true;
+        }
         let Self { x, y, zero } = *self;
         zero || y.square() == x.cube() + C::A * x + C::B
     }
@@ -110,6 +122,10 @@ impl<C: Curve> AffinePoint<C> {
     }
 
     pub fn double(&self) -> Self {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::sum(self.to_projective(), self.to_projective()).to_affine();
+        }
         let AffinePoint {
             x: x1,
             y: y1,
@@ -153,6 +169,10 @@ impl<C: HaloCurve> AffinePoint<C> {
 
 impl<C: Curve> PartialEq for AffinePoint<C> {
     fn eq(&self, other: &Self) -> bool {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::log(self.to_projective()) == crate::verif_hooks::log(other.to_projective());
+        }
         let AffinePoint {
             x: x1,
             y: y1,
@@ -233,6 +253,10 @@ impl<C: Curve> ProjectivePoint<C> {
     }
 
     pub fn double(&self) -> Self {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::sum(*self, *self);
+        }
         let Self { x, y, z, zero } = *self;
         // Doubling a point of order two gives the identity.
         if zero || y.is_zero() {
@@ -270,6 +294,10 @@ impl<C: Curve> ProjectivePoint<C> {
     }
 
     pub fn neg(&self) -> Self {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::negative(*self);
+        }
         Self {
             x: self.x,
             y: -self.y,
@@ -281,6 +309,10 @@ impl<C: Curve> ProjectivePoint<C> {
 
 impl<C: Curve> PartialEq for ProjectivePoint<C> {
     fn eq(&self, other: &Self) -> bool {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::log(*self) == crate::verif_hooks::log(*other);
+        }
         let ProjectivePoint {
             x: x1,
             y: y1,
@@ -309,6 +341,10 @@ impl<C: Curve> Neg for AffinePoint<C> {
     type Output = AffinePoint<C>;
 
     fn neg(self) -> Self::Output {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::negative(self.to_projective()).to_affine();
+        }
         let AffinePoint { x, y, zero } = self;
         AffinePoint { x, y: -y, zero }
     }
@@ -318,6 +354,10 @@ impl<C: Curve> Neg for ProjectivePoint<C> {
     type Output = ProjectivePoint<C>;
 
     fn neg(self) -> Self::Output {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::negative(self);
+        }
         let ProjectivePoint { x, y, z, zero } = self;
         ProjectivePoint { x, y: -y, z, zero }
     }
diff --git a/src/curve/curve_adds.rs b/src/curve/curve_adds.rs
index 75e29ae..6993e41 100644
--- a/src/curve/curve_adds.rs
+++ b/src/curve/curve_adds.rs
@@ -6,6 +6,10 @@ impl<C: Curve> Add<ProjectivePoint<C>> for ProjectivePoint<C> {
     type Output = ProjectivePoint<C>;
 
     fn add(self, rhs: ProjectivePoint<C>) -> Self::Output {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::sum(self, rhs);
+        }
         let ProjectivePoint { x: x1, y: y1, z: z1, zero: zero1 } = self;
         let ProjectivePoint { x: x2, y: y2, z: z2, zero: zero2 } = rhs;
 
@@ -51,6 +55,10 @@ impl<C: Curve> Add<AffinePoint<C>> for ProjectivePoint<C> {
     type Output = ProjectivePoint<C>;
 
     fn add(self, rhs: AffinePoint<C>) -> Self::Output {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::sum(self, rhs.to_projective());
+        }
         let ProjectivePoint { x: x1, y: y1, z: z1, zero: zero1 } = self;
         let AffinePoint { x: x2, y: y2, zero: zero2 } = rhs;
 
@@ -93,6 +101,10 @@ impl<C: Curve> Add<AffinePoint<C>> for AffinePoint<C> {
     type Output = ProjectivePoint<C>;
 
     fn add(self, rhs: AffinePoint<C>) -> Self::Output {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::sum(self.to_projective(), rhs.to_projective());
+        }
         let AffinePoint { x: x1, y: y1, zero: zero1 } = self;
         let AffinePoint { x: x2, y: y2, zero: zero2 } = rhs;
 
diff --git a/src/curve/curve_msm.rs b/src/curve/curve_msm.rs
index 37f87e5..4003d5d 100644
--- a/src/curve/curve_msm.rs
+++ b/src/curve/curve_msm.rs
@@ -38,6 +38,10 @@ pub fn msm_precompute<C: Curve>(
 }
 
 fn precompute_single_generator<C: Curve>(g: ProjectivePoint<C>, w: usize) -> Vec<AffinePoint<C>> {
+    #[cfg(plonky_verif)]
+    if C::VERIF_LINEAR {
+        return vec![g.to_affine()];
+    }
     let digits = (C::ScalarField::BITS + w - 1) / w;
     let mut powers: Vec<ProjectivePoint<C>> = Vec::with_capacity(digits);
     powers.push(g);
@@ -65,6 +69,13 @@ pub fn msm_execute<C: Curve>(
     scalars: &[C::ScalarField],
 ) -> ProjectivePoint<C> {
     assert_eq!(precomputation.powers_per_generator.len(), scalars.len());
+    #[cfg(plonky_verif)]
+    if C::VERIF_LINEAR {
+        let powers = &precomputation.powers_per_generator;
+        return powers.iter().zip(scalars).fold(ProjectivePoint::ZERO, |acc, (p, &s)| {
+            acc + crate::verif_hooks::scaled(s, p[0].to_projective())
+        });
+    }
     let w = precomputation.w;
     let digits = (C::ScalarField::BITS + w - 1) / w;
     let base = 1 << w;
@@ -104,6 +115,13 @@ pub fn msm_execute_parallel<C: Curve>(
     scalars: &[C::ScalarField],
 ) -> ProjectivePoint<C> {
     assert_eq!(precomputation.powers_per_generator.len(), scalars.len());
+    #[cfg(plonky_verif)]
+    if C::VERIF_LINEAR {
+        let powers = &precomputation.powers_per_generator;
+        return powers.iter().zip(scalars).fold(ProjectivePoint::ZERO, |acc, (p, &s)| {
+            acc + crate::verif_hooks::scaled(s, p[0].to_projective())
+        });
+    }
     let w = precomputation.w;
     let digits = (C::ScalarField::BITS + w - 1) / w;
     let base = 1 << w;
diff --git a/src/curve/curve_multiplication.rs b/src/curve/curve_multiplication.rs
index 9097d32..18513ef 100644
--- a/src/curve/curve_multiplication.rs
+++ b/src/curve/curve_multiplication.rs
@@ -19,6 +19,10 @@ pub struct MultiplicationPrecomputation<C: Curve> {
 
 impl<C: Curve> ProjectivePoint<C> {
     pub fn mul_precompute(&self) -> MultiplicationPrecomputation<C> {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return MultiplicationPrecomputation { powers: vec![self.to_affine()] };
+        }
         let num_digits = digits_per_scalar::<C>();
         let mut powers_proj = Vec::with_capacity(num_digits);
         powers_proj.push(*self);
@@ -39,6 +43,10 @@ impl<C: Curve> ProjectivePoint<C> {
         scalar: C::ScalarField,
         precomputation: MultiplicationPrecomputation<C>,
     ) -> Self {
+        #[cfg(plonky_verif)]
+        if C::VERIF_LINEAR {
+            return crate::verif_hooks::scaled(scalar, precomputation.powers[0].to_projective());
+        }
         // Yao's method; see https://koclab.cs.ucsb.edu/teaching/ecc/eccPapers/Doche-ch09.pdf
         let precomputed_powers = precomputation.powers;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 65d78ee..6ea2538 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -1,7 +1,7 @@
 //! Entry points for the verification harness, compiled only with `--cfg plonky_verif`.
 
 use crate::plonk_challenger::RecursiveChallenger;
-use crate::{CircuitBuilder, HaloCurve, Target};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, ProjectivePoint, Target};
 
 /// Runs the in-circuit transcript over rounds of (observed elements, number of challenges to draw).
 #[allow(clippy::type_complexity)]
@@ -18,3 +18,31 @@ pub fn recursive_challenges<C: HaloCurve>(
         })
         .collect()
 }
+
+// A curve with `VERIF_LINEAR` stands for its group of discrete logarithms: a point's x coordinate is
+// its logarithm (the identity's is zero), y and z are one. The group operations are decided on real
+// point formulas elsewhere; protocols built on them are then decided over this group.
+
+pub(crate) fn log<C: Curve>(p: ProjectivePoint<C>) -> C::BaseField {
+    if p.zero {
+        C::BaseField::ZERO
+    } else {
+        p.x
+    }
+}
+
+fn point<C: Curve>(x: C::BaseField) -> ProjectivePoint<C> {
+    ProjectivePoint { x, y: C::BaseField::ONE, z: C::BaseField::ONE, zero: false }
+}
+
+pub(crate) fn sum<C: Curve>(a: ProjectivePoint<C>, b: ProjectivePoint<C>) -> ProjectivePoint<C> {
+    point(log(a) + log(b))
+}
+
+pub(crate) fn negative<C: Curve>(a: ProjectivePoint<C>) -> ProjectivePoint<C> {
+    point(-log(a))
+}
+
+pub(crate) fn scaled<C: Curve>(s: C::ScalarField, a: ProjectivePoint<C>) -> ProjectivePoint<C> {
+    point(C::verif_scale(s, log(a)))
+}
-- 
2.43.0


From 44f6ea5a9d2154bb2977959eba5b5665d58f7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 23/24] fix: plookup accepts an empty witness over a one-value
 table

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 11b409e..6e59728 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -156,7 +156,7 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
 /// adds a value to the table nor separates equal values of the table.
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     assert!(!t.is_empty(), "The table should be non-empty");
-    let n = (f.len().max(t.len() - 1) + 1).next_power_of_two() - 1;
+    let n = (f.len().max(t.len() - 1).max(1) + 1).next_power_of_two() - 1;
 
     let mut padded_f = f.to_vec();
     padded_f.resize(n, t[0]);
-- 
2.43.0


From b50f44f861a4316e3c3dfffc88a54f76bef3d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 24/24] fix: reading the point at infinity consumes its whole
 encoding

---
 src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..6e6be2e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,8 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +57,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0

