From 505fc939c72bf076519a66488d0d0a4ce8a23df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 01/37] fix: TupleIterator of size zero yields the empty tuple
 instead of underflowing

---
 util/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/src/lib.rs b/util/src/lib.rs
index 92691c5..9c78233 100644
--- a/util/src/lib.rs
+++ b/util/src/lib.rs
@@ -384,7 +384,7 @@ impl<'a, T> TupleIterator<'a, T> {
         TupleIterator{
             data: data,
             indeces: indeces,
-            curr_idx: size-1,
+            curr_idx: size.saturating_sub(1),
             is_done: is_done,
         }
     }
@@ -416,6 +416,12 @@ impl<'a, T: std::fmt::Debug> Iterator for TupleIterator<'a, T> {
             Some(self.indeces.iter().map(|&idx| &self.data[idx]).collect())
         };
 
+        // the empty tuple is the only one of size zero
+        if self.indeces.is_empty() {
+            self.is_done = true;
+            return out;
+        }
+
         if self.is_blocked() {
             while self.curr_idx > 0 && self.indeces[self.curr_idx]-self.indeces[self.curr_idx-1]==1 {
                 self.curr_idx-=1;
-- 
2.43.0


From 6cb7adf79a3a156aa96fc53a512a7ff28160b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 02/37] fix: is_prime and n_prime_factors test divisibility by
 the remainder

---
 alg/src/commutative.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..a232d87 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -126,16 +126,18 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                // primality does not depend on the unit
+                let (_, n) = self.simplify();
+                if n == Self::zero() || n == Self::one() { return false; }
+                (2..n).all(|x| n%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
-                if self.is_prime() { return 1; }
+                let (_, n) = self.simplify();
+                let mut num = n;
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
-                    let mut num = self;
-                    while num/x==0 {
+                (2..=n).for_each(|x| {
+                    while num%x == 0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 0bbadd0c820055485f2c2e3c31988badbcdf67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 03/37] fix: negating the rational zero gives zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..d999d55 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -179,7 +179,8 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        // zero has only one representation, the positive one
+        self.sign = !self.sign || self.numerator == 0;
         self
     }
 }
-- 
2.43.0


From 8f394175b9bbddf530cc9eb8ba8574837c6ec03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 04/37] fix: comparing two rational zeros does not divide by
 zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index d999d55..69aba8d 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,8 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        // gcd(0, 0) is zero
+        let gcd_of_n = gcd(self.numerator, rhs.numerator).max(1);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From 1c0dddaa20e0cf1bce14db40dfdfaf18e8ddc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 05/37] fix: the product of rationals starts from one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 69aba8d..4f06e87 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -213,7 +213,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 0a825437fb9950e59dcf640189fce3983baef487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 06/37] fix: Rational::new accepts the most negative numerator
 and denominator

---
 alg/src/commutative/rational_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 4f06e87..2b48fe2 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -23,8 +23,8 @@ impl Rational {
         if d == 0 { panic!("Denumerators cannot be zero!") };
 
         let mut r = Rational {
-            numerator: n.abs() as u64,
-            denominator: d.abs() as u64,
+            numerator: n.unsigned_abs(),
+            denominator: d.unsigned_abs(),
             sign: (n>=0) == (d>=0),
         };
 
-- 
2.43.0


From 1f9d5fa234fe8c31e517f45ed9a4ed7eb0100d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 07/37] fix: Permutation::swap with an empty range is the
 identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..3a3dde1 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,7 +196,7 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
-- 
2.43.0


From 138c394fe9df699a7db04ee24ef70fcd6f4332e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 08/37] fix: Permutation::swap accepts adjacent ranges in
 either order

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 3a3dde1..c0e2598 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -202,7 +202,7 @@ impl Permutation {
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 9a8ffcf1f0f9421aad91669156f7984f5b063737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 09/37] fix: negative powers of permutations are powers of the
 inverse

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index c0e2598..aa89072 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (power..0).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From 662e6fa11bd0310aefbafaa9e78e9afe786778eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 10/37] fix: a cycle without elements is the identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index aa89072..d8dbf06 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From 9892d6de7dbca307399ad5d375513ffe50e34a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 11/37] fix: inverses of ConstPermutation and VecPermutation

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index d8dbf06..6711675 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &j) in self.0.iter().enumerate() {
+            out[j] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &j) in self.0.iter().enumerate() {
+            out[j] = i;
         }
         Self(out)
     }
-- 
2.43.0


From 5800dd9b6ffde7398221f3001d3bbe63759b6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 12/37] fix: VecPermutation::order terminates

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 6711675..556536c 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -774,9 +774,9 @@ impl VecPermutation {
     pub fn order(self) -> usize {
         let mut order = 1;
         let mut power = self.clone();
-        let id = Self::identity();
         
-        while power != id {
+        // the identity can be stored with any length
+        while power.0.iter().enumerate().any(|(i, &j)| i != j) {
             power *= self.clone();
             order += 1;
         }
-- 
2.43.0


From cfa625ae1009a2aafc6258910803a55470d92377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 13/37] fix: merging two sorted sequences kept only one element
 of the second in order

---
 alg/src/lin_alg.rs | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..2d9307d 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,9 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
-    i: I,
-    j: J,
+    i: std::iter::Peekable<I>,
+    j: std::iter::Peekable<J>,
     f: F
 }
 
@@ -305,41 +304,19 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
-        } else {
-            None
+        match (self.i.peek(), self.j.peek()) {
+            (Some(x), Some(y)) if (self.f)(y, x) == Ordering::Less => self.j.next(),
+            (Some(_), _) => self.i.next(),
+            (None, _) => self.j.next(),
         }
     }
 }
 
-fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(i: I, j: J, f: F) -> impl Iterator<Item = T> {
+    Merge {
+        i: i.peekable(),
+        j: j.peekable(),
+        f,
     }
 }
 
-- 
2.43.0


From f29813b6afebe5464a6b586be857421961b78de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 14/37] fix: a formal sum built from a list with repetitions
 kept several terms for one basis element

---
 alg/src/lin_alg.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 2d9307d..6386624 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -186,19 +186,31 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
     pub fn remove(&mut self, i: usize) -> (Coeff, Basis) {
         self.0.remove(i)
     }
+
+    // the sum of the given basis elements, which have to be sorted
+    fn from_sorted(summands: impl IntoIterator<Item = Basis>) -> Self {
+        let mut out: Vec<(Coeff, Basis)> = Vec::new();
+        for b in summands {
+            match out.last_mut() {
+                Some((coeff, last)) if *last == b => *coeff += Coeff::one(),
+                _ => out.push((Coeff::one(), b)),
+            }
+        }
+        Vector(out)
+    }
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
     fn from(mut summands: [Basis; N]) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
-- 
2.43.0


From cf1d61409132006467cb09cf9d05ef027b9aeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 15/37] fix: comparing a block with a matrix does not recurse
 forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..908cb5d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From ceebe1f4228f8f96f96c444270ffb0b468066af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 16/37] fix: Matrix::from_array refuses rows of different
 lengths

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 908cb5d..cfe69c3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From c06e5cf95704c303ff65aa033889b0674e6fb5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 17/37] fix: matrices of a size that cannot be represented are
 refused

---
 alg/src/lin_alg/matrix_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cfe69c3..4b4b64d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -592,6 +592,9 @@ impl<T: PID> Matrix<T> {
     }
 
     fn new(n: usize, m: usize) -> Self {
+        // a size is stored in a quarter of 'usize' (see 'compress')
+        let max = usize::MAX >> (mem::size_of::<usize>() * 8 / 4 * 3);
+        assert!(n <= max && m <= max, "the size of the matrix must be at most {max} in both directions but size=({n}, {m}).");
         let mut mat = Matrix {
             ptr: ptr::NonNull::dangling(),
             _marker: PhantomData,
-- 
2.43.0


From fe4952935eae8005fd90f3d48df2821245bf3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 18/37] fix: rank_as_linear_map looks for a pivot in the
 adjacent row and column too

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 4b4b64d..d877870 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1084,14 +1084,14 @@ impl <T:Field+Copy> Matrix<T> {
         let mut skipped = 0;
         for k in 0..shorter_side {
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
+                let result = (k+1..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
                 match result {
                     Some(j) => clone.col_operation(k, j, T::one()),
                     None => (),
                 }
             }
             if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
+                let result = (k+1..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
                 match result {
                     Some(i) => clone.row_operation(k, i, T::one()),
                     None => {
-- 
2.43.0


From 361eaddce9b705ff524a3fcb9cf61e3d68a42636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 19/37] fix: smith_normal_form keeps the inverse of the column
 operations up to date

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index d877870..04b9b19 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1061,7 +1061,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From d5508c37e230bc30ae2c95c03ad02a1a47e80c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 20/37] fix: the elementary divisors found by smith_normal_form
 are not negative

---
 alg/src/lin_alg/matrix_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 04b9b19..3cf9f24 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1069,8 +1069,16 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
             }
         }
         debug_assert!((0..rank).all( |i| (i+1..rank).all(|k| self[(i,i)].divides(self[(k,k)]))), " Diagonal is not sorted: {:?}", self);
-        // simplify r_op
 
+        // Make the elementary divisors canonical (non-negative in case of the integers)
+        for r in 0..rank {
+            let (unit, divisor) = self[(r,r)].simplify();
+            if unit == T::one() { continue; }
+            let inverse = T::one().euclid_div(unit).0;
+            self[(r,r)] = divisor;
+            r_op[(r, ..)] *= inverse;
+            r_op_inv[(.., r)] *= unit;
+        }
 
         (r_op_inv, r_op, self, c_op, c_op_inv)
     }
-- 
2.43.0


From 1eda6e18849bb964b3cce4bd983ee5be764b5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 21/37] fix: a sparse matrix without entries can be iterated,
 compared and multiplied

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..f71f1b8 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -97,8 +97,8 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
         // if 'rows' and 'cols' are empty, then add some elements to 'rows' so that the iter() does not panic.
         if m.rows.is_empty() {
-            m.rows.push(SparseNode::End);
-            m.cols.push(SparseNode::End);
+            m.rows.push(SparseNode::Start(0, Rc::new(SparseNode::End)));
+            m.cols.push(SparseNode::Start(0, Rc::new(SparseNode::End)));
         }
 
         m
-- 
2.43.0


From 8332014c56f67c106164b66a37a82b25e51a75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 22/37] fix: sparse matrices are equal when their entries are

---
 alg/src/lin_alg.rs                    |  2 +-
 alg/src/lin_alg/sparse_matrix_impl.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 6386624..24ae391 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -14,7 +14,7 @@ pub struct Matrix<T: PID> {
 
 pub struct SubMatrix<T: PID>([T]);
 
-#[derive(Clone, PartialEq, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseMatrix<T: PID> {
     rows: Vec<SparseNode<T>>,
     cols: Vec<SparseNode<T>>,
diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index f71f1b8..590da55 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -184,6 +184,16 @@ impl<'a, T: PID> Iterator for Iter<'a, T> {
     }
 }
 
+impl<T: PID> std::cmp::PartialEq for SparseMatrix<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.size() == other.size() && (0..self.size().0).all(|i| {
+            let lhs = self.row_iter(i).filter(|&(_, val)| *val != T::zero());
+            let rhs = other.row_iter(i).filter(|&(_, val)| *val != T::zero());
+            lhs.eq(rhs)
+        })
+    }
+}
+
 impl<T: PID> std::cmp::PartialEq<Matrix<T>> for SparseMatrix<T> {
     fn eq(&self, other: &Matrix<T>) -> bool {
         if self.size() != other.size() {
-- 
2.43.0


From e34c89702ee4d87a5c8b936fb57b1731f4dea8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 23/37] fix: the Householder vector of a negative multiple of
 the first unit vector gives a reflection

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 3cf9f24..660a52b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1282,7 +1282,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From dccf3b11a9a00e93b9fa658807a0e55ebcc240ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 24/37] fix: a 2x2 block with a double eigenvalue has a real
 spectrum

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 660a52b..b446452 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1694,7 +1694,7 @@ impl SubMatrix<f64> {
         debug_assert_eq!( self.size(), (2,2) );
         let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
+        if m*m-det >= 0.0 {
             let rad = (m*m-det).sqrt();
             Some((m-rad, m+rad))
         } else {
-- 
2.43.0


From ebf648ec2aa89564d13bbe9ad617dff6731e063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 25/37] fix: symmetric_qr accepts 1x1 matrices

---
 alg/src/lin_alg/matrix_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b446452..e7ece13 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1955,6 +1955,9 @@ impl SubMatrix<f64> {
 
     pub fn symmetric_qr(&mut self, with_op: bool) -> Matrix<f64> {
         let n = self.size().0;
+        if n < 2 {
+            return Matrix::identity(n);
+        }
         let tolerance = 0.0000000001;
         let mut op = Matrix::identity(n);
         self.householder_tridiagonalization(with_op);
-- 
2.43.0


From aed755d3637a3cde749d60bb33ec4f9555c15a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 26/37] fix: det and solve do not divide by a zero pivot

---
 alg/src/lin_alg/matrix_impl.rs | 35 ++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index e7ece13..44c9313 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1151,10 +1151,11 @@ impl Matrix<f64> {
         };
 
         // this implementation of determinant is based on LU decomposition
-        self.lu();
+        let swaps = self.lu_with_row_swaps();
+        let sign = if swaps.len() % 2 == 0 { 1.0 } else { -1.0 };
         (0..self.size().0)
             .map(|i| self[(i,i)])
-            .product()
+            .product::<f64>() * sign
     }
 
     pub fn random_orthogonal(n: usize) -> Matrix<f64> {
@@ -1329,8 +1330,10 @@ impl Matrix<f64> {
             b.size
         );
         let n = self.size().0;
-        self[(..,..)].lu();
-        
+        for (i, k) in self.lu_with_row_swaps() {
+            b.swap_rows(i, k);
+        }
+
         // Solve Ly = b by forward substitution
         for i in 1..n {
             b[(i, 0)] = b[(i,0)] - self[(i, 0..i)].dot( &b[(0..i, 0)] );
@@ -1714,6 +1717,30 @@ impl SubMatrix<f64> {
         }
     }
 
+    /// LU decomposition that swaps two rows whenever the pivot is zero. It returns the swaps in order.
+    fn lu_with_row_swaps(&mut self) -> Vec<(usize, usize)> {
+        assert_eq!(self.size().0, self.size().1, "Input has to this function has to be a square matrix.");
+
+        let n = self.size().0;
+        let mut swaps = Vec::new();
+        for i in 0..n-1 {
+            if self[(i,i)] == 0.0 {
+                match (i+1..n).find(|&k| self[(k,i)] != 0.0) {
+                    Some(k) => {
+                        self.swap_rows(i, k);
+                        swaps.push((i, k));
+                    },
+                    // nothing to eliminate in this column
+                    None => continue,
+                }
+            }
+            let update = &self[(i+1..n, i)] / self[(i,i)];
+            self[(i+1..n,i)].write_and_move( update );
+            let update = &self[(i+1..n,i+1..n)] - &self[(i+1..n,i)] * &self[(i, i+1..n)];
+            self[(i+1..n, i+1..n)].write_and_move( update );
+        }
+        swaps
+    }
 
     pub fn hessenberg_form(&mut self) {
         if self.size().0 != self.size().1 {
-- 
2.43.0


From 511dd7fa61aba90455222f9072d65c691b1b49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 27/37] fix: CubicalCplx::boundary_map lists the cells of every
 dimension instead of an empty basis

---
 topo_spaces/src/cubical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..9d4973b 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,15 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            // add the cell to the basis
+            basis[self.dim_of(idx)].push( Cube(self.get_cell_from_idx(idx).unwrap()) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From aae0aedf21b4044c1716cf34af84d22a6b016bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 28/37] fix: UdnMorseCplx with one marked point or upper
 dimension 0 holds only the critical cells

---
 topo_spaces/src/cubical.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 9d4973b..04147d6 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -804,7 +804,13 @@ impl UdnMorseCplx {
         // possible factors are provided by upstairs, so just collect them and make new_branches
         let new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
-            possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
+            possible_factors.iter()
+                // an edge in the maximal tree must be followed by a disrespected vertex, so it cannot be the only factor
+                .filter(|&&factor| factor.is_vertex() || n_rem_factors > 1 || !factor.is_in_maximal_tree(&self.factor_pool) )
+                // if the upper dim is 0, then we cannot add edges.
+                .filter(|&&factor| factor.is_vertex() || upper_dim > 0 )
+                .map(|&factor| Branch::new_parent(factor) )
+                .collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-- 
2.43.0


From 0d257f7ace4b28e333fd53599748da920d57aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 29/37] fix: a repeated loop is subtracted only once from the
 number of non-loop edges up to multiplicity

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..e3ba9a7 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,7 +80,7 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
+            if v_idx != w_idx && data[v_idx][w_idx].len() > 1 {
                 n_non_loop_edges_up_to_multiplicity -= 1;
             } 
             if v_idx == w_idx {
-- 
2.43.0


From 7910cff1847924e450020b94709ec1369178d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 30/37] fix: edge_iter does not yield [0, 1] when it is not an
 edge

---
 topo_spaces/src/graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index e3ba9a7..1b2dcd6 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1475,11 +1475,14 @@ impl<'a> Iterator for EdgeIter<'a> {
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
         let edge = (0, 1);
-        EdgeIter {
+        let mut iter = EdgeIter {
             graph: self,
             curr: edge,
             is_done: self.n_vertices() < 2,
-        }
+        };
+        // the iteration begins at (0, 1), so skip it if it is not an edge of the graph
+        if !iter.is_done && !self.contains(0, 1) { iter.next(); }
+        iter
     }
 
     pub fn vertex_iter(&'a self) -> VertexIter<'a> {
-- 
2.43.0


From 2efaa444cc8d98b2a497ea528cace522c27f52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 31/37] fix: the middle vertex of an edge subdivided for two
 marked points lies inside the edge, not at its end

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 1b2dcd6..6b6ae93 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1147,11 +1147,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From 4ead0e3e2f65547eff9dad4c1d7ff7fef2cbbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 32/37] fix: reduce_to_geodesic does not index an empty path
 after everything before has cancelled

---
 topo_spaces/src/cubical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 04147d6..8ce9791 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1209,6 +1209,7 @@ impl EdgePath {
                     out[i].remove(idx);
                     if out[i].is_empty() {
                         out.remove(i);
+                        if out.is_empty() { out.push(Vec::new()); }
                     }
                 } else if i+1 == out.len() {
                     out.push(vec![step]);
-- 
2.43.0


From 97db0c575250ec8b93899e0f173ee2ac9d46079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 33/37] fix: new_from_zero_skeleton accepts more than two
 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..2d3a193 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From bfeb65e01961b4572040d7b9de45e13e4355b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 34/37] fix: cells of simplicial complexes with more than 63
 vertices are compared, contained and joined in all their words

---
 topo_spaces/src/simplicial/mod_impl.rs | 35 +++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 2d3a193..6d8b881 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,10 +51,9 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter()).for_each(|(x, &y)| *x |= y);
             
         if cell.vertices.len() > self.vertices.len() { 
             (self.vertices.len()..cell.vertices.len()).
@@ -109,6 +108,7 @@ impl SimplicialCell {
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
         self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+            && cell.vertices.iter().skip(self.vertices.len()).all(|&y| y == 0)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
@@ -342,13 +342,21 @@ impl<T: VertexLabel> SimplicialCplx<T>
 }
 
 
+impl SimplicialCell {
+    // compares the sets of vertices by the largest vertex at which they differ. Missing words are empty.
+    fn cmp_vertices(&self, rhs: &Self) -> Ordering {
+        let len = std::cmp::max(self.vertices.len(), rhs.vertices.len());
+        let word = |cell: &Self, i: usize| cell.vertices.get(i).copied().unwrap_or(0);
+        (0..len).rev()
+            .map(|i| word(self, i).cmp( &word(rhs, i) ))
+            .find(|&cmp| cmp != Ordering::Equal)
+            .unwrap_or(Ordering::Equal)
+    }
+}
+
 impl PartialEq for SimplicialCell {
     fn eq(&self, rhs: &Self) -> bool {
-        if self.vertices.len() == rhs.vertices.len() {
-            return self.vertices == rhs.vertices
-        } else {
-            self.vertices.iter().zip(rhs.vertices.iter()).all(|(&x, &y)| x==y)
-        }
+        self.cmp_vertices(rhs) == Ordering::Equal
     }
 }
 
@@ -362,14 +370,7 @@ impl Ord for SimplicialCell {
         }
 
         // if self.dim == rhs.dim
-        let result = self.vertices.iter()
-            .zip(rhs.vertices.iter())
-            .map(|(x, y)| x.cmp(y))
-            .find(|&cmp| cmp != Ordering::Equal);
-        match result {
-            Some(cmp) => cmp,
-            None => Ordering::Equal,
-        }
+        self.cmp_vertices(rhs)
     }
 }
 
-- 
2.43.0


From f9ee50ad2bdfee76c41f149767787357b3c2bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 35/37] fix: cells are classified by the order of discrete
 Morse theory (order-respecting edges, numbered by their initial)

A tree edge counted as disrespected by every vertex between its ends, and an
edge was compared with the vertices by its terminal, so the matching was not
the one of the discrete gradient field and the homology of the Morse complex
could differ from the homology of the cubical complex.
---
 topo_spaces/src/cubical.rs | 14 +++++++-------
 topo_spaces/src/graph.rs   |  5 +++++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 8ce9791..d676c8a 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -534,9 +534,9 @@ impl Cube {
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_blocked_and_disrespected_by(f, graph)) ))
             )
-            .next();
+            .min_by_key(|&(_, &f)| if f.is_edge() { f.initial().vertex() } else { f.vertex() }); // an edge has the number of its initial
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -818,7 +818,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_blocked_and_disrespected_by(factor, &self.factor_pool) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -851,7 +851,7 @@ impl UdnMorseCplx {
                 .filter(|&&factor| factor < upper_bound || ( factor.is_edge() && factor.terminal() < upper_bound ) ) // ignore upper bounds 
                 .filter(|&&factor| {
                     if factor.is_edge() && factor.is_in_maximal_tree(&self.factor_pool) {
-                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
+                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|&v| v.is_blocked_and_disrespected_by(factor, &self.factor_pool)).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
                         !vertices_candidates.is_empty()
                     } else {
                         true
@@ -863,11 +863,11 @@ impl UdnMorseCplx {
             // further, if the 'n_rem_factor' equals the number of debts, then we need to pay back right now, so remove all the factors that do not pay for unpaid edges.
             let n_debts = unpaid_edges.len();
             if n_rem_factors == n_debts {
-                new_branches.retain(|b| (**b).is_vertex() );
+                new_branches.retain(|b| (**b).is_vertex() && unpaid_edges.iter().any(|&factor| (**b).is_blocked_and_disrespected_by(factor, &self.factor_pool)) );
             }
 
-            // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
-            if n_rem_factors == 1 {
+            // Similarly if there is only one more remaining factor than debts, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
+            if n_rem_factors == n_debts + 1 {
                 new_branches.retain(|b| (**b).is_vertex() || !(**b).is_in_maximal_tree(&self.factor_pool) );
             }
 
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 6b6ae93..b403e36 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1367,6 +1367,11 @@ impl CubeFactor {
         i<k && k<j
     }
 
+    // An edge in the maximal tree is disrespected only by the vertices which flow to its terminal.
+    pub fn is_blocked_and_disrespected_by(self, other: CubeFactor, graph: &RawSimpleGraph) -> bool {
+        self.is_disrespected_by(other) && self.flow(graph).terminal() == other.terminal()
+    }
+
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
         if let CubeFactor::Vertex(v) = self {
             // if this is the basepoint of the tree, then this is trivially blocked.
-- 
2.43.0


From cc574db48388d8ae3eab0c5cd2efbcfb4f322ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:50 +0000
Subject: [PATCH 36/37] fix: n_cells_of_dim does not overflow in the factorials
 of binomials that fit

---
 topo_spaces/src/simplicial/mod_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 6d8b881..87014ba 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -276,7 +276,8 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                // the i-th step is the binomial of x-y+i over i, so every division is exact
+                (1..=y).fold(1, |accum, i| accum * (x-y+i) / i)
             }
         };
 
-- 
2.43.0


From 12f680b02493be2610f12da0254166ba83905919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 37/37] fix: integer powers of the constant functions zero and
 one are not products that contain them

---
 analysis/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analysis/src/lib.rs b/analysis/src/lib.rs
index f73d91c..89951c9 100644
--- a/analysis/src/lib.rs
+++ b/analysis/src/lib.rs
@@ -355,6 +355,11 @@ impl AtomicSmoothFn {
             return Self::One;
         }
 
+        // 'Product' cannot directly contain 'Zero' or 'One'
+        if self == Self::One || (self == Self::Zero && exponent > 0) {
+            return self;
+        }
+
         if let Self::Product(v) = self {
             let v = v * exponent;
             Self::Product(v)
-- 
2.43.0

