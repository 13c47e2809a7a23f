From fd70a786c80b41904477bee42fe5ee65896665b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 01/11] fix: last rows of the biharmonic stencil product

Row n-3 used the wrong coefficient; rows n-2 and n-1 read past the end of the
coefficient vectors, which have n-4 elements.
---
 src/chebyshev/stencils/helpers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..60b8462 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,12 +398,10 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From 5994db9936543addb92a202f506e227fda7e0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 02/11] fix: c2c gradient of negative wavenumbers

The modes from the end are -1, -2, ..; they were multiplied by 0, i, 2i, ..
---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 7ca7ec40dfc53e8b590d2090ca8d7eeb857e50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 03/11] fix: gradient of three-dimensional spaces along the
 last axis

The last axis was differentiated with the base of the second axis.
---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From 30fde5f7d69a899e6389ee76783ef42f8ac070d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 04/11] fix: integer overflow in third and fourth order
 differentiation matrices

The third-order terms pass through negative values (panic with overflow checks
from n = 12) and the fourth-order ones exceed 64 bits from n = 567 (silently
wrong entries in release builds). Use i128 for the intermediate values.
---
 src/chebyshev/ortho.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..1b39373 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,25 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q1 = q as i128;
+                    let q2 = q1 * q1;
                     if (p + q) % 2 != 0 {
                         dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                            (q1 * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let p1 = p as i128;
+                let (p2, p4) = (p1 * p1, p1 * p1 * p1 * p1);
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let q1 = q as i128;
+                    let (q2, q4) = (q1 * q1, q1 * q1 * q1 * q1);
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q1
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From e70cb092011758bdea4b1b9612b3b861c19e6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 05/11] fix: chebyshev pseudoinverse for sizes just above the
 order

The limits of the upper bands underflow for small n; these bands are empty then.
---
 src/chebyshev/ortho.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 1b39373..32ebf6c 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -169,7 +169,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n {
                 pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
             }
-            for i in 1..n - 2 {
+            for i in 1..n.saturating_sub(2) {
                 pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
             }
         } else if deriv == 2 {
@@ -177,10 +177,10 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 3..n {
                 pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
             }
-            for i in 2..n - 2 {
+            for i in 2..n.saturating_sub(2) {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -191,17 +191,17 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[3, 0]] *= 2.;
             // diag - 1
-            for i in 3..n - 2 {
+            for i in 3..n.saturating_sub(2) {
                 let d = 8 * (i + 1) * (i - 2) * i;
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -213,22 +213,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[4, 0]] *= 2.;
             // diag - 2
-            for i in 4..n - 2 {
+            for i in 4..n.saturating_sub(2) {
                 let d = 4 * (i - 3) * (i - 1) * i * (i + 1);
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From efe59f7b03e3702d5c8e74b2985782b7bac4ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 06/11] fix: number of fourier grid points

A floating point range of step 2 pi / n has n + 1 points for some n (61, 122,
197, ..), so that coords() and arrays of physical size disagreed.
---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..7392bf3 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..e41bd43 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From 07efda6043b10fbdc17090455e144a3df4d75bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 07/11] fix: chebyshev gradient of one or two coefficients

The unchecked recurrence needs at least three coefficients and accessed
elements past the end for shorter vectors.
---
 src/chebyshev/ortho.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 32ebf6c..015f94f 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -403,6 +403,16 @@ where
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
+        // Polynomials of degree less than two, too short for the recurrence below
+        if self.m < 3 {
+            for _ in 0..n_times {
+                if self.m == 2 {
+                    outdata[0] = outdata[1];
+                }
+                outdata[self.m - 1] = T::zero();
+            }
+            return;
+        }
         // Differentiate
         let two = T::one() + T::one();
         for _ in 0..n_times {
-- 
2.43.0


From c3e7dfb9640073c356adc258c4b21c11dfbcbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 08/11] fix: check slice lengths before unchecked access in
 stencil helpers

to_ortho_slice and from_ortho_slice are safe functions, but accessed memory out
of bounds when given slices of the wrong length.
---
 src/chebyshev/stencils/helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 60b8462..233ad33 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -167,6 +168,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
     {
         use crate::chebyshev::linalg::tdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == self.diag.len() + 2);
+        assert!(v.len() == self.diag.len());
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,6 +232,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // assert!(Self::get_m(u.len()) == u.len());
         let n = u.len();
         unsafe {
@@ -265,6 +269,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
     {
         use crate::chebyshev::linalg::pdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == self.diag.len() + 2);
+        assert!(v.len() == self.diag.len());
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +389,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -424,6 +431,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
     {
         use crate::chebyshev::linalg::pdma2;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == self.diag.len() + 4);
+        assert!(v.len() == self.diag.len());
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From 29b556c5d3e5942ae7018a63f53f3a16442c4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 09/11] fix: reject decompositions with more processors than
 grid points

The index of the last element of an empty part wrapped around and the tables of
starting indices were silently wrong in release builds.
---
 src/space_mpi/decomp2d/distribute.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/space_mpi/decomp2d/distribute.rs b/src/space_mpi/decomp2d/distribute.rs
index 1fd5228..31f714d 100644
--- a/src/space_mpi/decomp2d/distribute.rs
+++ b/src/space_mpi/decomp2d/distribute.rs
@@ -111,7 +111,16 @@ impl<const N: usize> Distribution<N> {
     /// # Return
     /// Vectors containing starting/ending index and size of each
     /// processor
+    ///
+    /// # Panics
+    /// Panics if there are more processors than grid points.
     fn distribute(n_global: usize, nprocs: usize) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
+        assert!(
+            nprocs <= n_global,
+            "Cannot distribute {} points on {} processors.",
+            n_global,
+            nprocs
+        );
         let size = n_global / nprocs;
         let mut st = vec![0; nprocs];
         let mut en = vec![0; nprocs];
-- 
2.43.0


From 14c243a3781d8c4a4e9d328ad9f95d53f99131d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 10/11] fix: approx_eq_complex compares real and imaginary part

Values were accepted when either of the two agreed.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From cb8e6d9a7d41860af2815b9f6c8fa8b6b2584516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 11/11] fix: BaseSpaceFromOrtho::to_ortho is callable (drop
 unsatisfiable bound)

---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0

