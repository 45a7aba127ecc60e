From 459371a32df8f5ac1559072e740c960ae7a6929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/10] fix: IntoIter::nth must not drop or read past the
 remaining elements

nth(n) dropped n slots regardless of how many were left, touching memory
outside of the array (or elements already taken from the back).
---
 src/vector.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..f1b5dd5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,12 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..n {
+            if self.next().is_none() {
+                return None;
+            }
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From e6b2d0d9d0e0c344440595691097415ce3961091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/10] fix: IntoIter::next_back must stop where next has
 already been

After consuming from the front, next_back handed out the same elements a
second time (double drop).
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index f1b5dd5..ae3eb42 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -799,7 +799,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From 885bbc82aba6c6e1ea6adaac77ad688891dce665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 03/10] fix: RowsIter/ColsIter lengths must account for items
 taken from the back

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From 865c0e6fccbb6670e8a28606e70ca97fa35e6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 04/10] fix: nth of the row/column iterators must not step past
 the end

The front cursor could pass the back cursor (len() underflows) or wrap
around (already visited rows come back).
---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..5720f58 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use ::vector::{Vector, ArrayLen};
 
 pub struct RowsIter<'a, T: 'a, Row, Col>
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
-- 
2.43.0


From 494c1045cf7daabade7d5413d8ff65fc8f612a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 05/10] fix: indexing an empty vector with U0 must not compile

Index<U0> lacked the 0 < N bound the other static indices have, so safe
code could read out of bounds.
---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index ae3eb42..36e54d6 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From 94a0e4342447a8e6f46bcc82555ea429a7220ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/10] fix: ColsIterRefInner::new must reject an out-of-range
 column in release builds

It is public and safe, and the column is later used for unchecked access.
---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 5720f58..ce4eaa7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From ebf8515aa95cce7a1ec9e6ae47fe0bc5bc7c111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 07/10] fix: Debug of a matrix without rows must not underflow

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 0c3a0fd1015c11ddcee70895971db5b22de84e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 08/10] fix: Matrix2f64 must hold f64

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From 8df17f672d8fb819996e4f36815a8e2eabf5c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 09/10] fix: inverse of larger matrices must exchange rows when
 a pivot is zero

Invertible matrices with a zero pivot were reported as singular.
---
 src/matrix/ops.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..28fc43a 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,18 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
-                }
-                T::one() / d
-            };
+            // bring a row with a non-zero pivot into position
+            let mut p = i;
+            while p < n && mat[(p, i)].is_zero() {
+                p += 1;
+            }
+            if p == n {
+                return None;
+            }
+            mat.0.as_slice_mut().swap(i, p);
+            inv.0.as_slice_mut().swap(i, p);
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From 77353d9cb07a3630dad254b58107d9b25b59adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:59 +0000
Subject: [PATCH 10/10] fix: a surplus item in a debug-build collect must not
 leak the elements collected

---
 src/vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 36e54d6..981fb86 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -721,12 +721,15 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 ptr::write(arr.as_mut().get_unchecked_mut(i), item);
             }
 
+            // from here on the elements are dropped as usual, also if the assertion below panics
+            let arr = arr.into_inner();
+
             // making this `assert_eq` slows down matrix multiplication by 7x in release build!
             debug_assert_eq!(it.count(), 0,
                              "Vector<_, U{0}> can only be created with exactly {0} elements.",
                              N::to_usize());
 
-            arr.into_inner()
+            arr
         };
 
         Vector::new(arr)
-- 
2.43.0

