From ce431e01f503fe8382fd5b5af1de19a0d1f711e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 01/19] fix: reduce sums and differences of rationals to lowest
 terms

1/2 + 1/2 came out as 4/4, which is neither in simplest form nor equal to 1.
---
 src/core/num/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..7f939d6 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -84,7 +84,7 @@ impl Add for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
@@ -104,7 +104,7 @@ impl Sub for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
-- 
2.43.0


From 29dd48a44ce5bd8c52c334ce311b8263816da9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 02/19] fix: panic on the reciprocal of zero instead of
 returning 0/0

`Rational::recip` (and `Field::inv`) of zero built the value 0/0.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 7f939d6..cc152ab 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,7 +64,7 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
-        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
+        Self::new(self.denom, self.numer)
     }
 }
 
-- 
2.43.0


From c2395f78137fc895be4df8c5805c009a371073b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 03/19] fix: keep negative powers of rationals in canonical
 form

(-1/2)^-1 came out as 2/-1 and 0^-1 as 1/0.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index cc152ab..61e5a63 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            self.recip().pow(-exp)
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From 57178cbc8c182e22456f16bc3bbb3505fca1f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 04/19] fix: make lcm nonnegative and defined for two zeros

lcm(-4, 6) came out as -12 and lcm(0, 0) divided by zero.
---
 src/core/num/int.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..33ad1ba 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -81,7 +81,11 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        if a.0 == 0 && b.0 == 0 {
+            return Integer(0);
+        }
+
+        (a / Self::gcd(a, b) * b).abs()
     }
 }
 
-- 
2.43.0


From 39bec952ddb5c78970e16e658e57d234d07362c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 05/19] fix: gcd of the smallest integer and -1

`i64::MIN % -1` panics although the remainder is zero.
---
 src/core/num/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index 33ad1ba..80c3681 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -70,7 +70,7 @@ impl Integer {
 
         while b != 0 {
             t = b;
-            b = a % b;
+            b = a.wrapping_rem(b);
             a = t;
         }
 
-- 
2.43.0


From ca26f45f5cd72fb718c129becceef339e22a617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 06/19] fix: trim an all-zero multidegree to the zero
 multidegree

`trim_zeros` left [0, 0] alone, which is not equal to `MultiDegree::zero()`.
---
 src/poly/mdeg.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..fcb9275 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -33,9 +33,8 @@ impl MultiDegree {
     /// Should be avoided if possible; prefer clean operations.
     #[inline]
     pub fn trim_zeros(&mut self) {
-        if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
-            self.0.truncate(idx + 1);
-        }
+        let len = self.degs().rposition(|deg| *deg != 0).map_or(0, |idx| idx + 1);
+        self.0.truncate(len);
     }
 
     /// Returns the multidegree wrapping the given vector, after truncating off
-- 
2.43.0


From e89b992fbd16a2cdf166ac1adde125f92b1df729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 07/19] fix: compare total degrees above 255 in the graded
 orders

The total degree was summed in a u8, so x^200 y^100 overflowed.
---
 src/poly/ord.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..798415d 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,9 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    // the total degree may exceed the range of the individual degrees
+    let total = |m: &MultiDegree| m.degs().map(|&deg| usize::from(deg)).sum::<usize>();
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From 0f05075c9b251b1e09a2e686bdab2d81af827345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 08/19] fix: mutable column iterator on non-square matrices

The entries are stored row by row, so the chunks are `cols` long.
---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From 8363ce6812e240b0705112fcb9107047a4596762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 09/19] fix: accept zero polynomials among the generators of an
 ideal

Buchberger's criterion and algorithm panicked on them.
---
 src/poly/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..e3da820 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -169,9 +169,8 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
                     return false;
                 }
-            } else {
-                panic!("should not happen. yeah i know, joseph, 'parse don't validate'");
             }
+            // otherwise one of the two is zero and there is no S-polynomial to check
         }
 
         true
@@ -257,6 +256,9 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
     pub fn buchberger_algorithm(generators: &mut Vec<Polynomial<F>>) {
+        // zero generators do not contribute to the ideal
+        generators.retain(|g| !g.is_zero());
+
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
-- 
2.43.0


From f549d533663362b2e616b485cadd6c3f25f4143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 10/19] =?UTF-8?q?fix:=20make=20the=20reduced=20Gr=C3=B6bne?=
 =?UTF-8?q?r=20basis=20monic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`buchberger_algorithm` returned [2x] for the ideal <2x>, so the result was
not the reduced Gröbner basis and depended on the scaling of the generators.
---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index e3da820..47e8a38 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -252,6 +252,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                 }
             };
         }
+
+        // reduced Gröbner bases are monic
+        for g in generators.iter_mut() {
+            if let Some(lc) = Self::leading_coef(g) {
+                *g = &*g / lc;
+            }
+        }
     }
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
-- 
2.43.0


From b5d5e33d46ba4e7fe9ad995616f2c92b8c282408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 11/19] fix: make pivots exactly one in floating point
 elimination

Scaling a row by 1/49 turns a pivot of 49 into 0.9999999999999999, so the
entries below it were not cleared and [[49.0], [49.0]] had rank 2.
---
 src/linalg/algorithm.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..d86e8a4 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -86,7 +86,8 @@ impl<F: Field> LUDecompositionInternal<F> {
 
     fn scale_row(&mut self, r: usize, scalar: F) {
         self.l[(r, r)] = scalar;
-        self.u.scale_row(r, F::ONE / scalar);
+        // dividing (unlike multiplying by the inverse) makes the pivot exactly 1
+        self.u.get_row_iter_mut(r).for_each(|x| *x /= scalar);
     }
 
     fn replace_col_under_row(&mut self, r: usize, c: usize) {
@@ -169,9 +170,10 @@ impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R>
 		self.b.permute_rows(r1, r2);
 	}
 
-	fn scale_row(&mut self, r: usize, scalar: F){
-		self.p.scale_row(r, scalar);
-		self.b.scale_row(r, scalar);
+	/// Dividing (unlike multiplying by the inverse) makes the pivot exactly 1.
+	fn divide_row(&mut self, r: usize, scalar: F){
+		self.p.get_row_iter_mut(r).for_each(|x| *x /= scalar);
+		self.b.get_row_iter_mut(r).for_each(|x| *x /= scalar);
 	}
 
 	/// Performs replacement operation to clear all entries in column under the
@@ -236,7 +238,7 @@ impl<F: Field + StabilityCmp + EpsilonEquality> Mat<F> {
 
 			if let Some((stable_index, scalar)) = form.b.get_stable_column_index_under_row(c, r) {
 				form.permute_rows(r, stable_index);
-				form.scale_row(r, F::ONE/scalar);
+				form.divide_row(r, scalar);
 				form.replace_col_under_row(r, c);
 				
 				r += 1;
-- 
2.43.0


From f7f1004743536945a9c61a72e3eff79a801d273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 12/19] fix: orient facet normals by all generators of a cone

The sign was taken from the first generator alone, so a facet through that
generator was dropped whenever its normal happened to point outwards, e.g.
the facet spanned by (1, 0) of the cone generated by (1, 0) and (0, -1).
---
 src/linalg/cone.rs | 59 ++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 28a04ee..be2f33d 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -1,3 +1,5 @@
+use std::cmp::Ordering;
+
 use itertools::Itertools;
 
 use crate::{core::num::{EpsilonEquality, Field, StabilityCmp}};
@@ -54,41 +56,36 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			let mut normal = subset_kernel[0].clone();
 
 			// (3) check that all generators are on one side
-			if let Some(ordering) = generators[0].dot(&normal).partial_cmp(&F::ZERO) {
-
-				// re-orient the normal in the direction of the first generator
-				let is_above = match ordering {
-					std::cmp::Ordering::Less => false,
-					_ => true
-				};
-				if !is_above {
-					normal *= F::ZERO - F::ONE;
+			// TODO add clause checking for when dot product epsilon_equals 0
+			// in that case, add that generator to the subset (or make a new collection)
+			// of extra vectors. This will give a way for combining "facets" that are
+			// identical.
+			let mut is_above = false;
+			let mut is_below = false;
+			for g in generators.iter() {
+				match g.dot(&normal).partial_cmp(&F::ZERO) {
+					Some(Ordering::Less) => is_below = true,
+					Some(Ordering::Equal) => {}
+					Some(Ordering::Greater) => is_above = true,
+					None => continue 'outer
 				}
+			}
+			if is_above && is_below {
+				continue;
+			}
 
-				// check that the remaining generators "are above" normal
-				for g in generators.iter() {
-					if let Some(ordering) = g.dot(&normal).partial_cmp(&F::ZERO) {
-						// TODO add clause checking for when dot product epsilon_equals 0
-						// in that case, add that generator to the subset (or make a new collection)
-						// of extra vectors. This will give a way for combining "facets" that are
-						// identical.
-						match ordering {
-							std::cmp::Ordering::Less => continue 'outer,
-							_ => {}
-						};
-					} else {
-						continue 'outer; 
-					}
-				}
+			// re-orient the normal in the direction of the generators
+			if is_below {
+				normal *= F::ZERO - F::ONE;
+			}
 
-				// create facet to add to list
-				let facet = Face {
-					normal,
-					generators: subset_owned
-				};
+			// create facet to add to list
+			let facet = Face {
+				normal,
+				generators: subset_owned
+			};
 
-				facets.push(facet);
-			}
+			facets.push(facet);
 		}
 
 		Cone {
-- 
2.43.0


From e85a235877720be3cc455384723116da508f028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 13/19] fix: facets of cones that do not span the ambient space

The normal could be orthogonal to the whole cone, and cones of dimension
zero or one panicked.
---
 src/linalg/cone.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index be2f33d..98e1683 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -39,19 +39,36 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 
 		let mut facets: Vec<Face<F>> = vec![];
 
+		// the zero cone has no facets
+		if dim == 0 {
+			return Cone {
+				generators,
+				facets,
+				orth_comp_basis,
+				ambient_dim,
+				dim
+			};
+		}
+
 		// compute facets
 		'outer: for subset in generators.iter().combinations(dim-1) {
 			// this is very inefficient to copy this all the time
 			let subset_owned : Vec<Mat<F>> = subset.iter().map(|&m| m.clone()).collect();
-			let subset_mat = Mat::from_row_vectors(&subset_owned);
-			let subset_rref = subset_mat.row_echelon().to_rref();
+			// a normal is orthogonal to the subset and lies in the span of the cone
+			let constraints = subset_owned.iter().chain(orth_comp_basis.iter());
+			let constraint_mat = Mat::new(
+				dim-1 + orth_comp_basis.len(),
+				ambient_dim,
+				constraints.flat_map(|v| v.entries().iter().copied()).collect()
+			);
+			let subset_rref = constraint_mat.row_echelon().to_rref();
 
 			// (1) check linearly independent
-			if subset_rref.rank() != dim-1 {
+			if subset_rref.rank() != ambient_dim-1 {
 				continue;
 			}
 
-			// (2) get a normal (there are potentially multiple in dim != ambient_dim)
+			// (2) get a normal (unique up to scaling)
 			let subset_kernel = subset_rref.compute_kernel();
 			let mut normal = subset_kernel[0].clone();
 
-- 
2.43.0


From 363df4ed40fe9cb5bd339887258e5016cdd2991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 14/19] verif: observation hooks for row echelon forms and
 cones (cfg algeo_verif)

---
 src/linalg/algorithm.rs |  9 +++++++++
 src/linalg/cone.rs      | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index d86e8a4..22450fd 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -318,6 +318,15 @@ impl<'a, F: Field + StabilityCmp + EpsilonEquality> ReducedRowEchelonForm<'a, F>
 	}
 }
 
+/// Observation hooks for the verification harness (`--cfg algeo_verif`).
+#[cfg(algeo_verif)]
+impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R> {
+	/// The triple `(p, b, original)`.
+	pub fn verif_parts(&self) -> (&Mat<F>, &Mat<F>, &Mat<F>) {
+		(&self.p, &self.b, self.original)
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use crate::linalg::util::mat_iterator;
diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 98e1683..3cecbec 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -113,4 +113,18 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			dim
 		}
 	}
-}
\ No newline at end of file
+}
+
+/// Observation hooks for the verification harness (`--cfg algeo_verif`).
+#[cfg(algeo_verif)]
+impl<F: Field> Cone<F> {
+	/// The tuple `(generators, orthogonal complement basis, ambient dimension, dimension)`.
+	pub fn verif_parts(&self) -> (&[Mat<F>], &[Mat<F>], usize, usize) {
+		(&self.generators, &self.orth_comp_basis, self.ambient_dim, self.dim)
+	}
+
+	/// Normal and generators of each facet.
+	pub fn verif_facets(&self) -> Vec<(&Mat<F>, &[Mat<F>])> {
+		self.facets.iter().map(|f| (&f.normal, f.generators.as_slice())).collect()
+	}
+}
-- 
2.43.0


From 00040ccacca052e866a6c7ceb642df4d526976b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 15/19] fix: stability order of two equal rationals is Equal

---
 src/core/num/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/num/traits.rs b/src/core/num/traits.rs
index 215bd84..794d04e 100644
--- a/src/core/num/traits.rs
+++ b/src/core/num/traits.rs
@@ -213,7 +213,9 @@ stability_cmp_impl! { f32 f64 }
 /// avoid very large denominators/numerators.
 impl StabilityCmp for Rational {
     fn stability_cmp(&self, other: &Self) -> Option<Ordering> {
-        if *self == Rational::ZERO {
+        if *self == *other {
+            Some(Ordering::Equal)
+        } else if *self == Rational::ZERO {
             Some(Ordering::Less)
         } else if *other == Rational::ZERO {
             Some(Ordering::Greater)
-- 
2.43.0


From 0c820f86e8e3de2fce42afe2ab410b12fc02904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 16/19] fix: polynomial division over floats terminates

---
 src/poly/comp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 47e8a38..c7f4b68 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -83,6 +83,10 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                         // eliminate `lt_f == a * lt_g` from `f`
                         f = f - a * g;
 
+                        // in inexact fields, rounding may leave a residue of
+                        // `lt_f`, and dividing it again need not terminate
+                        f.terms.retain(|t| t.mdeg != lt_f.mdeg);
+
                         continue 'outer;
                     }
                 }
-- 
2.43.0


From 4d0549d0384beb884b38652912326d87b23baccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 17/19] fix: S-polynomials over floats cancel their leading
 terms

---
 src/poly/comp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index c7f4b68..126a80c 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -153,7 +153,12 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         let lt_g = Self::leading_term(g)?;
         let lcm = Self::monic_lcm(&lt_f, &lt_g);
 
-        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)
+        let mut s = lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g;
+
+        // in inexact fields, rounding may leave a residue of the leading terms
+        s.terms.retain(|t| t.mdeg != lcm.mdeg);
+
+        Some(s)
     }
 
     /// Test whether `generators` is a Gröbner basis using Buchberger's criterion
-- 
2.43.0


From e9a18bb359623d6fa2582c89b8f7fa0188403eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 18/19] fix: digits of large numbers, and enumeration of the
 empty matrix over no values

---
 src/linalg/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/util.rs b/src/linalg/util.rs
index 7c0e51f..61411f3 100644
--- a/src/linalg/util.rs
+++ b/src/linalg/util.rs
@@ -35,7 +35,7 @@ struct BaseSeqIterator {
 impl BaseSeqIterator {
 	pub fn new(n: usize, base: usize) -> BaseSeqIterator {
 		BaseSeqIterator {
-			n: n*base,
+			n,
 			base
 		}
 	}
@@ -45,12 +45,13 @@ impl Iterator for BaseSeqIterator {
 	type Item = usize;
 
 	fn next(&mut self) -> Option<Self::Item> {
-		self.n /= self.base;
-
 		if self.n == 0 {
 			None
 		} else {
-			Some(self.n % self.base)
+			let digit = self.n % self.base;
+			self.n /= self.base;
+
+			Some(digit)
 		}
 	}
 }
-- 
2.43.0


From 112845592211354b39140af427c74dbfa9b5c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 19/19] fix: replacement matrix that adds a multiple of a row
 to itself

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index 119db55..24c9c5c 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -144,7 +144,7 @@ impl<F: Field> Mat<F> {
             get_box_iter(rows, rows)
                 .map(|(r, c)| {
                     if c == source && r == target {
-                        scalar
+                        if r == c { F::ONE + scalar } else { scalar }
                     } else if r == c {
                         F::ONE
                     } else {
-- 
2.43.0

