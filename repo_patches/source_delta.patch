From fba0863bf34e674a117487e56162bb1a9c171f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:18 +0000
Subject: [PATCH 1/8] fix: keep complex *= and /= whole when scalar arithmetic
 panics midway

The compound assignments built their result step by step inside the receiver, so a
panic in scalar arithmetic (such as integer overflow) left a component holding an
intermediate value that is neither the old nor the new one.
---
 crates/cglinalg_core/src/complex.rs | 44 +++++++++++------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..e680a36 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -2723,13 +2723,11 @@ where
     S: SimdScalar,
 {
     fn mul_assign(&mut self, other: Complex<S>) {
-        let a = self.re;
+        let re = self.re * other.re - self.im * other.im;
+        let im = self.im * other.re + self.re * other.im;
 
-        self.re *= other.re;
-        self.re -= self.im * other.im;
-
-        self.im *= other.re;
-        self.im += a * other.im;
+        self.re = re;
+        self.im = im;
     }
 }
 
@@ -2738,13 +2736,11 @@ where
     S: SimdScalar,
 {
     fn mul_assign(&mut self, other: &Complex<S>) {
-        let a = self.re;
-
-        self.re *= other.re;
-        self.re -= self.im * other.im;
+        let re = self.re * other.re - self.im * other.im;
+        let im = self.im * other.re + self.re * other.im;
 
-        self.im *= other.re;
-        self.im += a * other.im;
+        self.re = re;
+        self.im = im;
     }
 }
 
@@ -2773,16 +2769,12 @@ where
     S: SimdScalar,
 {
     fn div_assign(&mut self, other: Complex<S>) {
-        let a = self.re;
         let norm_squared = other.norm_squared();
+        let re = (self.re * other.re + self.im * other.im) / norm_squared;
+        let im = (self.im * other.re - self.re * other.im) / norm_squared;
 
-        self.re *= other.re;
-        self.re += self.im * other.im;
-        self.re /= norm_squared;
-
-        self.im *= other.re;
-        self.im -= a * other.im;
-        self.im /= norm_squared;
+        self.re = re;
+        self.im = im;
     }
 }
 
@@ -2791,16 +2783,12 @@ where
     S: SimdScalar,
 {
     fn div_assign(&mut self, other: &Complex<S>) {
-        let a = self.re;
         let norm_squared = other.norm_squared();
+        let re = (self.re * other.re + self.im * other.im) / norm_squared;
+        let im = (self.im * other.re - self.re * other.im) / norm_squared;
 
-        self.re *= other.re;
-        self.re += self.im * other.im;
-        self.re /= norm_squared;
-
-        self.im *= other.re;
-        self.im -= a * other.im;
-        self.im /= norm_squared;
+        self.re = re;
+        self.im = im;
     }
 }
 
-- 
2.43.0


From 62cb8e2e429bb2b9bb782c73283aca9351a2196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:05 +0000
Subject: [PATCH 2/8] fix: return sink errors from Display of vectors, points
 and matrices

The Display implementations unwrapped every write to the formatter except the last,
so rendering into a sink that fails (a full buffer, a closed pipe) panicked instead
of returning the formatting error.
---
 crates/cglinalg_core/src/matrix.rs | 14 +++++++-------
 crates/cglinalg_core/src/point.rs  |  4 ++--
 crates/cglinalg_core/src/vector.rs |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..a4276be 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1536,21 +1536,21 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Matrix{}x{} [", R, C).unwrap();
+        write!(formatter, "Matrix{}x{} [", R, C)?;
 
         for c in 0..(C - 1) {
-            write!(formatter, "[").unwrap();
+            write!(formatter, "[")?;
             for r in 0..(R - 1) {
-                write!(formatter, "{}, ", self.data[c][r]).unwrap();
+                write!(formatter, "{}, ", self.data[c][r])?;
             }
-            write!(formatter, "{}], ", self.data[c][R - 1]).unwrap();
+            write!(formatter, "{}], ", self.data[c][R - 1])?;
         }
 
-        write!(formatter, "[").unwrap();
+        write!(formatter, "[")?;
         for r in 0..(R - 1) {
-            write!(formatter, "{}, ", self.data[C - 1][r]).unwrap();
+            write!(formatter, "{}, ", self.data[C - 1][r])?;
         }
-        write!(formatter, "{}]", self.data[C - 1][R - 1]).unwrap();
+        write!(formatter, "{}]", self.data[C - 1][R - 1])?;
 
         write!(formatter, "]")
     }
diff --git a/crates/cglinalg_core/src/point.rs b/crates/cglinalg_core/src/point.rs
index 0da4f90..484e246 100644
--- a/crates/cglinalg_core/src/point.rs
+++ b/crates/cglinalg_core/src/point.rs
@@ -547,9 +547,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Point{} [", N).unwrap();
+        write!(formatter, "Point{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.coords[i]).unwrap();
+            write!(formatter, "{}, ", self.coords[i])?;
         }
         write!(formatter, "{}]", self.coords[N - 1])
     }
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index eb703f5..24c44c4 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -1192,9 +1192,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Vector{} [", N).unwrap();
+        write!(formatter, "Vector{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.data[i]).unwrap();
+            write!(formatter, "{}, ", self.data[i])?;
         }
         write!(formatter, "{}]", self.data[N - 1])
     }
-- 
2.43.0


From 6e824aaafd056bf7ad05ee68b6ece2c392cc7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:39 +0000
Subject: [PATCH 3/8] fix: map matrix components without zero-initialised
 elements

Matrix::map wrote its results over mem::zeroed elements of the caller's type. That
dropped values nobody made for types that own resources, panicked for types with no
all-zero value, and released zeroed elements when the caller's function panicked.
---
 crates/cglinalg_core/src/matrix.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index a4276be..6e01f30 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -468,22 +468,14 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn map<T, F>(&self, mut op: F) -> Matrix<T, R, C>
     where
         F: FnMut(S) -> T,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = op(self.data[c][r]);
-            }
+        Matrix {
+            data: self.data.map(|column| column.map(&mut op)),
         }
-
-        Matrix { data }
     }
 
     /// Get the row of the matrix by value.
-- 
2.43.0


From 175f0fab82ceb8dab3befcc24c4491365f98bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:39 +0000
Subject: [PATCH 4/8] fix: cast vector and matrix components without
 zero-initialised elements

try_cast wrote converted components over mem::zeroed elements of the target type. That
released values nobody made for types that own resources and panicked for types with no
all-zero value.
---
 crates/cglinalg_core/src/matrix.rs | 30 +++++++++++++++++-------------
 crates/cglinalg_core/src/vector.rs | 26 +++++++++++++++-----------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 6e01f30..cf2dd39 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -651,25 +651,29 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Matrix<T, R, C>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = match cglinalg_numeric::try_cast(self.data[c][r]) {
-                    Some(value) => value,
-                    None => return None,
-                };
-            }
+        // Once a component does not fit, the remaining ones are not converted.
+        let mut fits = true;
+        let data: [[Option<T>; R]; C] = self.data.map(|column| {
+            column.map(|component| {
+                let value = if fits { cglinalg_numeric::try_cast(component) } else { None };
+                fits = value.is_some();
+
+                value
+            })
+        });
+
+        if fits {
+            Some(Matrix {
+                data: data.map(|column| column.map(Option::unwrap)),
+            })
+        } else {
+            None
         }
-
-        Some(Matrix { data })
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index 24c44c4..2b7e3e0 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -108,23 +108,27 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Vector<T, N>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [T; N] = unsafe { core::mem::zeroed() };
-        for i in 0..N {
-            data[i] = match cglinalg_numeric::try_cast(self.data[i]) {
-                Some(value) => value,
-                None => return None,
-            };
+        // Once a component does not fit, the remaining ones are not converted.
+        let mut fits = true;
+        let data: [Option<T>; N] = self.data.map(|component| {
+            let value = if fits { cglinalg_numeric::try_cast(component) } else { None };
+            fits = value.is_some();
+
+            value
+        });
+
+        if fits {
+            Some(Vector {
+                data: data.map(Option::unwrap),
+            })
+        } else {
+            None
         }
-
-        Some(Vector { data })
     }
 }
 
-- 
2.43.0


From 6c4245411b111887e289e916146232051dbb71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:57 +0000
Subject: [PATCH 5/8] fix: build matrix rows without zero-initialised elements

Matrix::from_rows and Matrix::row started from mem::zeroed(), which panics
for element types that have no all-zero value although the functions only
ask for S: Copy.
---
 crates/cglinalg_core/src/matrix.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index cf2dd39..e748b9f 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -429,19 +429,11 @@ where
     /// assert_eq!(matrix[1][0], r0[1]); assert_eq!(matrix[1][1], r1[1]); assert_eq!(matrix[1][2], r2[1]);
     /// assert_eq!(matrix[2][0], r0[2]); assert_eq!(matrix[2][1], r1[2]); assert_eq!(matrix[2][2], r2[2]);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn from_rows(rows: &[Vector<S, C>; R]) -> Self {
-        // SAFETY: Every location gets written into with a valid value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[S; R]; C] = unsafe { core::mem::zeroed() };
-        for r in 0..R {
-            for c in 0..C {
-                data[c][r] = rows[r][c];
-            }
+        Self {
+            data: core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c])),
         }
-
-        Self { data }
     }
 
     /// Map an operation on the elements of a matrix, returning a matrix whose
@@ -501,17 +493,9 @@ where
     /// assert_eq!(matrix.row(1), expected_1);
     /// assert_eq!(matrix.row(2), expected_2);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn row(&self, r: usize) -> Vector<S, C> {
-        // SAFETY: Every location gets written into with a value value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [S; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            data[c] = self.data[c][r];
-        }
-
-        Vector::from(data)
+        Vector::from(core::array::from_fn(|c| self.data[c][r]))
     }
 
     /// Get the column of the matrix by value.
-- 
2.43.0


From 5e2dfc14068c823bce5138ed3d32da0caf498e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 6/8] fix: Matrix::diagonal returns one entry per row of the
 matrix

It returned a four-component vector for every size, so that it panicked
with an index out of bounds for matrices larger than four by four.
---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index e748b9f..c120811 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1344,7 +1344,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From 24a9ec0f5a6c168261080275f21c225ea16a7886 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:33:37 +0000
Subject: [PATCH 7/8] fix: render zero-length vectors, points and matrices
 without panicking

---
 crates/cglinalg_core/src/matrix.rs | 20 ++++++++++----------
 crates/cglinalg_core/src/point.rs  |  9 ++++++---
 crates/cglinalg_core/src/vector.rs |  9 ++++++---
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index c120811..9cf2aa2 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1518,19 +1518,19 @@ where
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "Matrix{}x{} [", R, C)?;
 
-        for c in 0..(C - 1) {
+        for c in 0..C {
+            if c > 0 {
+                write!(formatter, ", ")?;
+            }
             write!(formatter, "[")?;
-            for r in 0..(R - 1) {
-                write!(formatter, "{}, ", self.data[c][r])?;
+            for r in 0..R {
+                if r > 0 {
+                    write!(formatter, ", ")?;
+                }
+                write!(formatter, "{}", self.data[c][r])?;
             }
-            write!(formatter, "{}], ", self.data[c][R - 1])?;
-        }
-
-        write!(formatter, "[")?;
-        for r in 0..(R - 1) {
-            write!(formatter, "{}, ", self.data[C - 1][r])?;
+            write!(formatter, "]")?;
         }
-        write!(formatter, "{}]", self.data[C - 1][R - 1])?;
 
         write!(formatter, "]")
     }
diff --git a/crates/cglinalg_core/src/point.rs b/crates/cglinalg_core/src/point.rs
index 484e246..c850a86 100644
--- a/crates/cglinalg_core/src/point.rs
+++ b/crates/cglinalg_core/src/point.rs
@@ -548,10 +548,13 @@ where
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "Point{} [", N)?;
-        for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.coords[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(formatter, ", ")?;
+            }
+            write!(formatter, "{}", self.coords[i])?;
         }
-        write!(formatter, "{}]", self.coords[N - 1])
+        write!(formatter, "]")
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index 2b7e3e0..6ce40a1 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -1197,10 +1197,13 @@ where
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "Vector{} [", N)?;
-        for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.data[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(formatter, ", ")?;
+            }
+            write!(formatter, "{}", self.data[i])?;
         }
-        write!(formatter, "{}]", self.data[N - 1])
+        write!(formatter, "]")
     }
 }
 
-- 
2.43.0


From c8ecea06a40a5adc3d18098fb6e1ef42d81a165e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:35:06 +0000
Subject: [PATCH 8/8] fix: drop the import Matrix::diagonal no longer needs

---
 crates/cglinalg_core/src/matrix.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 9cf2aa2..e732a96 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -22,7 +22,6 @@ use crate::vector::{
     Vector,
     Vector2,
     Vector3,
-    Vector4,
 };
 use crate::{
     impl_coords,
-- 
2.43.0

