From cbb9ac8f5d7fddd4f3b2d51abc8c091398d87d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 01/20] fix: sub_matrix checked the block size instead of its
 end, accepting blocks outside the matrix and refusing the full one

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 1d023c568d74adeaf5f4141a24ab4ecaa1fc66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 02/20] fix: refuse zero dimensions in every constructor, as
 Matrix::new does, instead of building a matrix whose cols() divides by zero

---
 src/matrix.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..844e787 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -110,6 +110,7 @@ impl<T : Copy> Matrix<T> {
 
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
+    assert!(m > 0 && n > 0);
     let elems = m * n;
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
@@ -122,6 +123,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
+    assert!(no_rows > 0 && no_cols > 0);
     let elems = no_rows * no_cols;
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
@@ -163,6 +165,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero_vector(no_rows : usize) -> Matrix<T> {
+    assert!(no_rows > 0);
     let mut d : Vec<T> = alloc_dirty_vec(no_rows);
     for i in 0..no_rows {
       d[i] = num::zero();
@@ -171,6 +174,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn one_vector(no_rows : usize) -> Matrix<T> {
+    assert!(no_rows > 0);
     let mut d : Vec<T> = alloc_dirty_vec(no_rows);
     for i in 0..no_rows {
       d[i] = num::one();
@@ -449,6 +453,7 @@ impl<T : Copy> Matrix<T> {
   }
 
   pub fn permute_rows(&self, rows : &[usize]) -> Matrix<T> {
+    assert!(rows.len() > 0);
     let no_rows = rows.len();
     let no_cols = self.cols();
     let elems = no_rows * no_cols;
@@ -470,6 +475,7 @@ impl<T : Copy> Matrix<T> {
   }
 
   pub fn permute_columns(&self, columns : &[usize]) -> Matrix<T> {
+    assert!(columns.len() > 0);
     let no_rows = self.no_rows;
     let no_cols = columns.len();
     let elems = no_rows * no_cols;
@@ -569,6 +575,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
+    assert!(no_rows > 0 && no_cols > 0);
     let elems = no_rows * no_cols;
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
-- 
2.43.0


From acd1527501328d5531aba4120c5f8694219c8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 03/20] fix: vector_p_norm raised negative elements to p before
 taking the absolute value, giving NaN for non-integer p

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 844e787..94ee53c 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -828,7 +828,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From ab5a29fa5772e8e2709e51767f269dad3f9515ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 04/20] fix: QR get_q left the last rows - cols columns of Q
 zero for tall matrices, so Q was not orthogonal

---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..2600106 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From 751742ed30eb7ff634d28e79717440f4755577ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 05/20] fix: QR solve scaled the Householder reflections for
 unit vectors it does not store and returned wrong solutions

---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 2600106..00fb323 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -215,7 +215,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-- 
2.43.0


From a6a119b8157d5bee9aaa147c095fcc6af14289a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 06/20] fix: QR solve panicked for every overdetermined system

---
 src/decomp/qr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 00fb323..b11abfe 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -234,6 +234,8 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
+    // The solution consists of the first n rows.
+    xdata.truncate(n * nx);
     Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
   }
 }
-- 
2.43.0


From b22adf7d9d7895c8c52b89d8908eadd5efabddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 07/20] fix: SVD rank read past the diagonal and panicked for
 tall matrices

---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From 82f41de6a7bae5bf2f0a2ad41bc3d432a8b3053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 08/20] fix: LU solve answered a tall system with a wrongly
 shaped non-solution; it is defined for square systems only

---
 src/decomp/lu.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..aace45c 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -237,6 +237,7 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
     let m = self.lu.rows();
     let n = self.lu.cols();
+    assert!(m == n);
     assert!(b.rows() == m as usize);
     if !self.is_non_singular() {
       return None
-- 
2.43.0


From 64a5a15371a57fbc8d3404d6b494f2d89af6f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/20] fix: eigendecomposition silently ignored the extra rows
 of a tall matrix; refuse matrices that are not square

---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..44c87b1 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From 36f036d9f96dcfb43150f386aee58df72083554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 10/20] fix: SVD and eigendecomposition of f32 matrices never
 converged; test convergence (and rank) against the element type's own epsilon

---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 44c87b1..c6d38af 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index feb1e3e..b39bbc3 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,7 +223,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
@@ -437,7 +437,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-- 
2.43.0


From f6cd350d52e1856f13e95f73d5f54b3f0d8db849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 11/20] fix: m! accepted rows of different lengths when the
 total divided evenly, rearranging the elements

---
 src/macros.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..a6c6af5 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -12,12 +12,19 @@ macro_rules! m_one {
   ( $item:tt ) => ( 1 )
 }
 
+/// Helper macro for m!
+#[macro_export]
+macro_rules! m_row_len {
+  ( [ $($i:expr),* ] ) => ( 0 $(+ m_one!($i))* )
+}
+
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
   ( [ $($row:tt),* ] [$($i:expr),*]) => ({
      let _rows = 0 $(+ m_one!($row) )*;
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     $( assert!(m_row_len!($row) == _cols, "m!: rows of different lengths"); )*
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From 34ed36de79c15944a0331616affa35f0cb7c4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 12/20] fix: constructors multiplied the dimensions unchecked,
 so a release build accepted sizes whose product wraps around

---
 src/matrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 94ee53c..c56db8a 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -24,7 +24,7 @@ pub struct Matrix<T> {
 
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
+    assert!(no_rows.checked_mul(no_cols) == Some(data.len()));
     assert!(no_rows > 0 && no_cols > 0);
     Matrix { no_rows : no_rows, data : data }
   }
@@ -111,7 +111,7 @@ impl<T : Copy> Matrix<T> {
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
     assert!(m > 0 && n > 0);
-    let elems = m * n;
+    let elems = m.checked_mul(n).expect("matrix too large");
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -124,7 +124,7 @@ impl<T : Num + Copy> Matrix<T> {
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
     assert!(no_rows > 0 && no_cols > 0);
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).expect("matrix too large");
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -576,7 +576,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
     assert!(no_rows > 0 && no_cols > 0);
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).expect("matrix too large");
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = rand::random::<T>();
-- 
2.43.0


From d56a7f45f3bf29e5c2d84dd94fc5dd225f5a2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 13/20] fix: QR lost orthogonality (or returned NaN) once a
 rank deficient column had decayed so far that its squares underflow; scale
 the column first

---
 src/decomp/qr.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index b11abfe..514cbdf 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,17 +46,27 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
-    let mut x_norm_sqr : T = num::zero();
+    //
+    // The column is first scaled by its largest element, so that the squares neither underflow nor overflow.
+    let mut scale : T = num::zero();
     for i in minor..m {
-      let c = qrdata[i * n + minor].clone();
-      x_norm_sqr = x_norm_sqr + c * c;
+      scale = scale.max(qrdata[i * n + minor].abs());
     }
+    let mut a : T = num::zero();
+    if scale != num::zero() {
+      let mut x_norm_sqr : T = num::zero();
+      for i in minor..m {
+        let c = qrdata[i * n + minor].clone() / scale;
+        qrdata[i * n + minor] = c;
+        x_norm_sqr = x_norm_sqr + c * c;
+      }
 
-    // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
-    // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
-    // coordinate will be the opposite of the current coordinate element.
-    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
-    rdiag[minor] = a.clone();
+      // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
+      // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
+      // coordinate will be the opposite of the current coordinate element.
+      a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
+    }
+    rdiag[minor] = scale * a;
 
     // If the length of the column vector is zero, the column is already zero and there's nothing to do.
     if a != num::zero() {
@@ -164,27 +174,24 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     //   Q = Q_1_inv(Q_2_inv(...(Q_m_inv I))) = Q_1(Q_2(...(Q_m I)))
     for minor in (0..cmp::min(m, n)).rev() {
       if self.qr.get_data()[minor * n + minor].clone() != num::zero() {
-        // |u|^2 = -2a*qrdata[minor * n + minor]
-        //       = -2 * rdiag[minor] * qrdata[minor * n + minor]
-        //
         // The reflection matrix is:
         //   H = I - 2uu'/|u|^2.
         //   Hx = (I - 2uu'/|u|^2)x
         //      = x - 2uu'x/|u|^2
         //      = x - 2<x,u>/|u|^2 u
-        //      = x - 2<x,u>/(-2a*qrdata[minor * n + minor]) u
-        //      = x + <x,u>/(a*qrdata[minor * n + minor]) u
-        //      = x + factor * u
+        //      = x - factor * u
         // Iterate over columns k .. (m - 1) of Q.
         for column in minor..m {
           let mut x_dot_u : T = num::zero();
+          let mut u_dot_u : T = num::zero();
           for row in minor..m {
             x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
+            u_dot_u = u_dot_u + self.qr.get_data()[row * n + minor].clone() * self.qr.get_data()[row * n + minor].clone();
           }
-          let factor = x_dot_u / (self.rdiag[minor].clone() * self.qr.get_data()[minor * n + minor].clone());
+          let factor = (x_dot_u + x_dot_u) / u_dot_u;
 
           for row in minor..m {
-            qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
+            qdata[row * m + column] = qdata[row * m + column].clone() - factor * self.qr.get_data()[row * n + minor].clone();
           }
         }
       }
@@ -212,12 +219,14 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     for k in 0..n {
       for j in 0..nx {
         let mut s : T = num::zero();
+        let mut u_dot_u : T = num::zero();
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
+          u_dot_u = u_dot_u + self.qr.get_data()[i * self.qr.cols() + k].clone() * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
+        s = (s + s) / u_dot_u;
         for i in k..m {
-          xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
+          xdata[i * nx + j] = xdata[i * nx + j].clone() - s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
       }
     }
-- 
2.43.0


From c48c8d5062cdbcf2c91dd3cc8c17e0d13351ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 14/20] fix: hqr2 never converged when the diagonal next to a
 negligible subdiagonal element had underflowed; test against the norm as well

---
 src/decomp/eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index c6d38af..2546b81 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -388,7 +388,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * (s + eps * norm)) {
           break;
         }
         l -= 1;
-- 
2.43.0


From 85155b6e8f93bf59355cd6f4fc787f2c2a91050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 15/20] fix: SVD and orthes built reflections from columns that
 had decayed to the edge of underflow, so their factors were not orthogonal;
 treat such columns as zero, in every float type

---
 src/decomp/eigen.rs |  8 ++++++++
 src/decomp/svd.rs   | 12 ++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 2546b81..9cba29e 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -254,6 +254,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let low = 0;
     let high = n - 1;
+    let tiny : T = T::min_positive_value() / T::epsilon();
 
     for m in (low + 1)..high {
       // Scale column.
@@ -261,6 +262,13 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       for i in m..(high + 1) {
         scale = scale + num::abs(hdata[i * n + (m - 1)].clone());
       }
+      if scale <= tiny {
+        // Negligible: that close to underflow there is no relative precision left to build a reflection from.
+        scale = num::zero();
+        for i in m..(high + 1) {
+          hdata[i * n + (m - 1)] = num::zero();
+        }
+      }
       if scale != num::zero() {
         // Compute Householder transformation.
         let mut h : T = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index b39bbc3..609b28d 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -60,6 +60,10 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let mut edata = alloc_dirty_vec(n);
     let mut workdata : Vec<T> = alloc_dirty_vec(m);
 
+    // Values up to tiny are negligible: that close to underflow there is no relative precision left.
+    let eps : T = T::epsilon();
+    let tiny : T = T::min_positive_value() / eps;
+
     // Reduce A to bidiagonal form, storing the diagonal elements
     // in s and the super-diagonal elements in e.
     let nct = cmp::min(m - 1, n);
@@ -73,6 +77,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in k..m {
           sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
         }
+        if sdata[k].clone() <= tiny {
+          sdata[k] = num::zero();
+        }
         if sdata[k].clone() != num::zero() {
           if adata[k * n + k].clone() < num::zero() {
             sdata[k] = - sdata[k].clone();
@@ -115,6 +122,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in (k + 1)..n {
           edata[k] = hypot(edata[k].clone(), edata[i].clone());
         }
+        if edata[k].clone() <= tiny {
+          edata[k] = num::zero();
+        }
         if edata[k].clone() != num::zero() {
           if edata[k + 1].clone() < num::zero() {
             edata[k] = - edata[k].clone();
@@ -223,8 +233,6 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = T::epsilon();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From ec22a49d14e063fbf144fc3757174d926c92678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 16/20] fix: tql2 and hqr2 divided by values at the edge of
 underflow, losing orthogonality and eigenvectors of low rank matrices; treat
 them as zero

---
 src/decomp/eigen.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 9cba29e..150aec8 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -149,12 +149,13 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
     let eps : T = T::epsilon();
+    let tiny : T = T::min_positive_value() / eps;
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
       let mut m = l;
       while m < n {
-        if num::abs(edata[m].clone()) <= (eps * tst1) {
+        if num::abs(edata[m].clone()) <= (tiny + eps * tst1) {
           break;
         }
         m += 1;
@@ -213,7 +214,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           ddata[l] = c * p;
 
           // Check for convergence.
-          if num::abs(edata[l].clone()) <= (eps * tst1) {
+          if num::abs(edata[l].clone()) <= (tiny + eps * tst1) {
             break;
           }
         }
@@ -640,7 +641,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           } else {
             l = i;
             if edata[i as usize].clone() == num::zero() {
-              if w != num::zero() {
+              if num::abs(w.clone()) > (eps * (eps * norm)) {
                 hdata[(i * nn + n) as usize] = - r / w;
               } else {
                 hdata[(i * nn + n) as usize] = - r / (eps * norm);
-- 
2.43.0


From 4f3f031c5b89a00177f2cc8cee323a7093a90617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 17/20] fix: SVD of a low rank matrix lost orthogonality, or
 never converged, once rotations were built from underflowing products;
 negligible is now also relative to the norm

---
 src/decomp/svd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 609b28d..f1c508c 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -233,6 +233,14 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
+
+    // Relative to the largest element of s and e, values up to eps^2 are far below the rounding
+    // error already made, and rotations built from their products would underflow.
+    let mut norm : T = num::zero();
+    for i in 0..p {
+      norm = norm.max(num::abs(sdata[i].clone())).max(num::abs(edata[i].clone()));
+    }
+    let tiny = tiny + eps * (eps * norm);
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From 0f89306dc85a03d38a215e21144a0a154c5a3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 18/20] fix: symmetric eigendecomposition ran past its buffers
 when an element overflowed

tql2 looked for the end of a block at edata[n] when the last subdiagonal
element had become NaN, and the next access was out of bounds.
---
 src/decomp/eigen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 150aec8..7edeb64 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -154,7 +154,8 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
       let mut m = l;
-      while m < n {
+      // The last subdiagonal element ends the block even if an overflow has made it something else than zero.
+      while m < n - 1 {
         if num::abs(edata[m].clone()) <= (tiny + eps * tst1) {
           break;
         }
-- 
2.43.0


From 021f1a50370812bf893750b67d77737f61a428ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 19/20] fix: hqr2 treats an exactly zero subdiagonal as
 negligible even when the tolerance is zero

With norm == 0 (or eps*(eps*norm) underflowing to 0) the strict comparison
never found the zero subdiagonal negligible and the QR iteration ran forever,
e.g. for the 3x3 matrix whose only non-zero element is a[1][0] = 1e-300.
---
 src/decomp/eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 7edeb64..7e37444 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -398,7 +398,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * (s + eps * norm)) {
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) <= (eps * (s + eps * norm)) {
           break;
         }
         l -= 1;
-- 
2.43.0


From b8f2ff34a603017c2c99041848a6bbcf3899e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 20/20] fix: hqr2 leaves the off-diagonal element out of the
 perturbation of a repeated complex pair

When a complex pair repeats an earlier one exactly, the complex system of the back substitution is
singular and its determinant is replaced by eps * norm * (...). That sum included the magnitude of
the subdiagonal element, which may be far larger than the other coefficients of the system; the
perturbation then left a visible residual in A*V - V*D.
---
 src/decomp/eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 7e37444..8c791a5 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -713,7 +713,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
               vr = (ddata[i as usize].clone() - p) * (ddata[i as usize].clone() - p) + edata[i as usize].clone() * edata[i as usize].clone() - q * q;
               vi = (ddata[i as usize].clone() - p) * num::cast(2.0).unwrap() * q;
               if (vr == num::zero()) && (vi == num::zero()) {
-                vr = eps * norm * (num::abs(w.clone()) + num::abs(q.clone()) + num::abs(x.clone()) + num::abs(y.clone()) + num::abs(z.clone()));
+                vr = eps * norm * (num::abs(w.clone()) + num::abs(q.clone()) + num::abs(x.clone()) + num::abs(z.clone()));
               }
               let (cdivr, cdivi) = EigenDecomposition::cdiv(x * r - z * ra + q * sa, x * s - z * sa - q * ra, vr, vi);
               hdata[(i * nn + (n - 1)) as usize] = cdivr;
-- 
2.43.0

