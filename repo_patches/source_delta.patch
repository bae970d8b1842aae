From dfbd1ec468301a3cb260882824f4e63a03f1914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:50 +0000
Subject: [PATCH 01/14] fix: sparse storage size overflows for algebras with 31
 or more generators

The size was shifted as an i32 before being widened, so writes to most
indices were dropped (or the shift panicked in debug builds).
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..d2cfdae 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -136,7 +136,7 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            size: (1 as IndexType) << dim,
             coeffs: HashMap::new(),
         }
     }
-- 
2.43.0


From 44068fa4355272eba798b830db3a507c824b91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:50 +0000
Subject: [PATCH 02/14] fix: reading the first index past a dense multivector
 panics

An index outside the algebra reads as zero everywhere else.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index d2cfdae..8b8a029 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 1786aee6d213296caee968b14f35fb004fe03dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:53 +0000
Subject: [PATCH 03/14] fix: filter_inplace keeps a coefficient that its
 predicate set to zero

The stored zero was counted by coeff_count and enumerated as a term.
---
 src/mv_sparse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mv_sparse.rs b/src/mv_sparse.rs
index 9374c66..337884f 100644
--- a/src/mv_sparse.rs
+++ b/src/mv_sparse.rs
@@ -45,11 +45,12 @@ where
     }
 
     /// Drop all the coefficients for which the predicate is false.
-    pub fn filter_inplace<F>(&mut self, f: F)
+    pub fn filter_inplace<F>(&mut self, mut f: F)
     where
         F: FnMut(&IndexType, &mut T) -> bool,
     {
-        self.coeffs.coeffs.retain(f);
+        // The predicate may change a coefficient to zero, zeros are never stored
+        self.coeffs.coeffs.retain(|idx, c| f(idx, c) && !c.is_zero());
     }
 
     /// Consume self and return it without all the coefficients for which the predicate is false.
-- 
2.43.0


From 187673c49d1557e7338e4591b0eacdb89abf4aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:53 +0000
Subject: [PATCH 04/14] fix: sparse grade_enumerate truncates the grade to 32
 bits

A grade of 2^32 + k enumerated the terms of grade k.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 8b8a029..8090557 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -174,7 +174,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| idx.count_ones() as usize == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
-- 
2.43.0


From 50d10f1ad9d7cc14738168ae0f192a85b7a9039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:54 +0000
Subject: [PATCH 05/14] fix: grade iterator overflows the stack for weights
 above isize::MAX

The weight was cast to a negative number and never exhausted.
---
 src/index_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..8730443 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -24,7 +24,7 @@ impl std::iter::Iterator for GradeIter {
     type Item = IndexType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + 1 < self.weight as isize {
+        if self.pos + 1 < 0 || ((self.pos + 1) as usize) < self.weight {
             return None;
         }
 
-- 
2.43.0


From 18c695a2430c9437537b97f1b130f14ac8672d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:54 +0000
Subject: [PATCH 06/14] fix: basis construction leaks the elements built before
 a panic

std::array::from_fn drops the finished elements on unwind.
---
 src/algebra.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..4f2c68b 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -51,13 +51,7 @@ pub trait ClAlgebra: ClAlgebraBase {
 }
 
 pub(crate) fn make_array<T, const N: usize>(f: impl Fn(usize) -> T) -> [T; N] {
-    let mut ret = std::mem::MaybeUninit::<[T; N]>::uninit();
-    unsafe {
-        for i in 0..N {
-            ret.as_mut_ptr().cast::<T>().wrapping_add(i).write(f(i));
-        }
-        ret.assume_init()
-    }
+    std::array::from_fn(f)
 }
 
 pub trait ClBasis<const DIM: usize>: ClAlgebra {
-- 
2.43.0


From 3511e801e63b3b6c4d2fdab5e33b9354d4989fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:54 +0000
Subject: [PATCH 07/14] fix: matrix inverse gives up on a zero diagonal element
 before pivoting

A later row swap can still bring a non-zero pivot there. A singular
matrix is detected by the pivot search.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From c0f7e21b6511d2558251c497bf8fb83edb91a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:54 +0000
Subject: [PATCH 08/14] fix: pga_translation accepts one coordinate too many

The extra coordinate was added to the null axis instead of being rejected.
---
 src/pga.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..aa58539 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -38,14 +38,15 @@ where
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let e_idx = A::proj_mask();
-        let bivec = Self::from_indexed_iter(
-            direction
-                .into_iter()
-                .enumerate()
-                .map(|(n, c)| (e_idx | (1 << n), c / 2.)),
-        )?;
         // A faster exp
-        Ok(bivec.set_by_idx(0, 1.))
+        let mut ret = Self::one();
+        for (n, c) in direction.into_iter().enumerate() {
+            if n >= SPC_DIM {
+                return Err(ClError::InvalidShape);
+            }
+            ret = ret.set_by_idx(e_idx | (1 << n), c / 2.);
+        }
+        Ok(ret)
     }
 
     fn pga_extract_point(&self) -> [f64; SPC_DIM] {
-- 
2.43.0


From bde1f99ee0eb0dad534956aeb9f42362e61d6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:54 +0000
Subject: [PATCH 09/14] fix: pga_point and pga_hyperplane never return for an
 endless iterator

They collected all items before checking the count.
---
 src/pga.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pga.rs b/src/pga.rs
index aa58539..1379066 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -22,7 +22,8 @@ where
     S: CoeffStorage<f64>,
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
-        let mut coords: Vec<f64> = coords.into_iter().collect();
+        // One more than needed is enough to see that there are too many
+        let mut coords: Vec<f64> = coords.into_iter().take(SPC_DIM + 1).collect();
         let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
         let p = Self::from_vector(coords)?.dual();
@@ -30,7 +31,7 @@ where
     }
 
     fn pga_hyperplane(equation_coeffs: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
-        let ec: Vec<f64> = equation_coeffs.into_iter().collect();
+        let ec: Vec<f64> = equation_coeffs.into_iter().take(SPC_DIM + 2).collect();
         let mag = ec.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(ec)?;
         Ok(p / mag)
-- 
2.43.0


From 2c92632e6276c1b23450f30899aad9e91e975f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:26 +0000
Subject: [PATCH 10/14] fix: pga_point of the origin has an infinite
 coefficient

The magnitude left out the homogeneous coordinate and was zero there.
---
 src/pga.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index 1379066..5644e48 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -24,8 +24,8 @@ where
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         // One more than needed is enough to see that there are too many
         let mut coords: Vec<f64> = coords.into_iter().take(SPC_DIM + 1).collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From 54ece2037468cc718084c586f0d14a8da81fd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:37 +0000
Subject: [PATCH 11/14] fix: exp of a multivector with many terms is cut off
 too early

The series was scaled by the largest coefficient only, so the powers of
a value with many terms kept growing while the series was truncated.
---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..23f0919 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,14 +302,14 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        // Ensure that the sum of the coefficients' magnitudes is at most 1
+        // so that the series doesn't blow up. No power of such a multivector can exceed that,
+        // while many coefficients that are only individually below 1 can add up.
+        let mut max_c: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            max_c += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
         let normalized_mv = self * &inv_max_c;
-- 
2.43.0


From 2c97db07ccbd1765300e0af86e5895b286f6c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:57 +0000
Subject: [PATCH 12/14] fix: keep the inverse accurate for elements of large
 magnitude

The backward elimination also subtracted the part of a row left of its
diagonal. Those entries are zero up to rounding errors, but the errors
grow with the magnitude of the element and spoiled the result.
---
 src/fftrepr/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index feefaf4..bda243b 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -73,7 +73,8 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
         for j in (0..i).rev() {
             // Accommodate for non-commutative T, such as quaternions.
             let coeff = T::one().ref_div(&w[(i, i)]).ref_mul(&w[(j, i)]);
-            for m in j..2 * n {
+            // The row has only rounding errors of the elimination to the left of its diagonal
+            for m in i..2 * n {
                 w[(j, m)] = w[(j, m)].ref_sub(&coeff.ref_mul(&w[(i, m)]));
             }
         }
-- 
2.43.0


From 3b3bc8fc4e3eff5178acb15c343b5974bd0205ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:20 +0000
Subject: [PATCH 13/14] fix: scale the fast representation's exponential by a
 norm

The series was started after scaling single matrix elements below 1.
Many such elements add up, the powers grow and the series is cut off
too early.
---
 src/fftrepr/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..29e4d48 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,14 +106,18 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        // Ensure that the norm is at most 1 so that the series doesn't blow up.
+        // No power of such a representation can exceed that,
+        // while elements that are only individually below 1 can add up.
+        let mut max_c: f64 = 0.0;
+        for m in self.arr.axis_iter(Axis(0)) {
+            // The greatest sum of a row
+            max_c += m
+                .axis_iter(Axis(0))
+                .map(|row| row.iter().map(|c| c.norm()).sum::<f64>())
+                .fold(0.0, f64::max);
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
 
-- 
2.43.0


From a768edd6cbd2c36feb6b2f47e805dd7e2e425e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:13 +0000
Subject: [PATCH 14/14] fix: reject algebras of 64 generators, whose number of
 blades does not fit the index type

---
 src/algebra.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index 4f2c68b..14b997a 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -388,8 +388,8 @@ macro_rules! impl_algebra_base {
             $crate::axis_name_func!([$($signature),+], [$($axes),*]);
         }
         impl $crate::algebra::ClBasis<{$crate::count_items!($($signature),+)}> for $name {}
-        // Limit the algebra size to fit the IndexType
-        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} <= 8*size_of::<$crate::types::IndexType>());
+        // Limit the algebra size so that the number of blades fits the IndexType
+        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} < 8*size_of::<$crate::types::IndexType>());
         // Optional traits implementations
         $crate::impl_split_signature!($name, $($signature),+);
         $crate::impl_non_degenerate!($name, $($signature),+);
-- 
2.43.0

