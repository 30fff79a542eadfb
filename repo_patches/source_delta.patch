From 29d09d5e48f054dcbb61f66c2183fd3d1328a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 01/22] fix: displaying a tensor key no longer recurses forever

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..8303cef 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From 61484d7ec9f2a42d5e9809171799189a1bc00e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 02/22] fix: get and get_mut of a wrapped vector reach the
 inner vector

---
 src/vector/implementation/deref_impl.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..81307f3 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -5,6 +5,22 @@ use crate::vector::traits::IntoVectorIterator;
 use crate::vector::*;
 
 
+// The references returned by the inner vector live as long as the borrow of the wrapper. This
+// can only be seen while the inner type is written as the `Deref::Target` of the wrapper.
+fn inner_get<'s, 'vec, V>(wrapper: &'s V, key: impl Borrow<<V::Target as Vector<'vec>>::KeyType>)
+    -> Option<&'s <V::Target as Vector<'vec>>::ScalarType>
+    where V: Deref, V::Target: Vector<'vec>
+{
+    wrapper.deref().get(key)
+}
+
+fn inner_get_mut<'s, 'vec, V>(wrapper: &'s mut V, key: impl Borrow<<V::Target as Vector<'vec>>::KeyType>)
+    -> Option<&'s mut <V::Target as Vector<'vec>>::ScalarType>
+    where V: DerefMut, V::Target: Vector<'vec>
+{
+    wrapper.deref_mut().get_mut(key)
+}
+
 
 impl<'vec, U, V> Vector<'vec> for V
     where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
@@ -46,11 +62,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        inner_get(self, key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        inner_get_mut(self, key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From 39d8fc13c56e326fa99b15bcc3ff4695893ecc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 03/22] fix: replacing a letter of a tensor key clears that
 letter's bits only

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8303cef..a2e6ccb 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), letter * Self::bits_per_letter());
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From eb948eda91481d53bee65fc734bd7bc45509ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 04/22] fix: tensor keys of different lengths are ordered by
 length first

---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..16d2d23 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From 21ee6c6a8c327e1e63ba7d2bb647f15691d04a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 05/22] fix: concatenating beyond the maximum depth is
 rejected, not truncated

---
 src/free_tensor/tensor_basis/tensor_key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index a2e6ccb..8515e1f 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -158,6 +158,9 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn concatenate(&self, other: &Self) -> Self
     {
+        if self.size() + other.size() > Self::max_depth() {
+            panic!("Number of letters exceeds maximum depth");
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0


From 1ef053af3f6b2b5d7fbd758f5d20444f420751f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 06/22] fix: sub_scalar_divide subtracts from a coefficient
 that is present

---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From 1ee5270caa69fdf7bfa13f552fbcf85c766f85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 07/22] fix: insert_single of a dense vector stores the value

---
 src/vector/implementation/simple_dense_vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..8323472 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,7 +241,11 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
 
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-- 
2.43.0


From e55409d8e494b6f679d7cb0d2e1e8a6a73a69383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 08/22] fix: supply the vector operations that were left as
 todo!()

---
 src/vector/implementation/simple_dense_vector.rs  |  4 +++-
 src/vector/implementation/simple_sparse_vector.rs | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 8323472..77ebb47 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -249,7 +249,9 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (k, s) in iterator {
+            self.insert_single(&k, s);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..f705b14 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -107,12 +107,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        std::mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -132,11 +132,13 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (k, s) in iterator {
+            self.insert_single(&k, s);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From 1ce3a5e30a53259fc3b0441e7231b353ea9e4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 09/22] fix: a sparse vector built from repeated keys adds
 their coefficients

---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index f705b14..ca30b27 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -102,7 +102,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            S::add_inplace(inner.entry(key).or_insert(S::ZERO), &val);
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From c195b9cf7adc1314d68036927ac58987239004f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:37 +0000
Subject: [PATCH 10/22] fix: in-place tensor multiplication computes the
 product within bounds

---
 src/free_tensor/implementation/dense.rs | 109 ++----------------------
 1 file changed, 6 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..431dc46 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -322,99 +309,15 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        // A coefficient of the product depends on coefficients of self of the same and of lower
+        // degrees, so the product is built aside before it takes the place of self.
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs.borrow(), func, to_degree);
+        self.swap(result);
     }
 
 }
-- 
2.43.0


From 0af2e9c5c5046fceebdc1a1cc2422afc57834632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:05 +0000
Subject: [PATCH 11/22] fix: tensor multiplication stays within the
 coefficients it is given

---
 src/free_tensor/implementation/dense.rs | 55 ++++++++++++++-----------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 431dc46..49c97e8 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -58,22 +58,30 @@ impl<'a, S, const NLETTERS: DegreeType> From<SimpleDenseVector<'a, TensorBasis<N
 
 
 mod tensor_mul_impl {
+    use std::cmp;
+    use std::ops::Range;
+
     use crate::coefficients::CoefficientField;
-    
+    use crate::DimensionType;
+
+    /// The part of the coefficients that falls in range, which is shorter than the range if the
+    /// vector is not filled up to the end of its highest degree.
+    pub(super) fn coefficients_in_range<S>(data: &[S], range: Range<DimensionType>) -> &[S]
+    {
+        &data[cmp::min(range.start, data.len())..cmp::min(range.end, data.len())]
+    }
 
-    pub(super) unsafe fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
+    pub(super) fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_dimension: DimensionType,
         func: &mut impl FnMut(&S) -> S,
     )
     {
-        let mut out_ptr = out.as_mut_ptr();
-
-        for lhs_v in lhs {
-            for rhs_v in rhs {
-                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
-                out_ptr = out_ptr.add(1);
+        for (lhs_v, out_row) in lhs.iter().zip(out.chunks_mut(rhs_dimension)) {
+            for (rhs_v, out_v) in rhs.iter().zip(out_row) {
+                S::add_inplace(out_v, &func(&S::mul(lhs_v, rhs_v)));
             }
         }
     }
@@ -256,7 +264,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::dense_tensor_multiply_into_buffer;
+        use tensor_mul_impl::{coefficients_in_range, dense_tensor_multiply_into_buffer};
 
         let rhs_r = rhs.borrow();
         let lhs_r = lhs.borrow();
@@ -269,8 +277,9 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let dimension = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < dimension {
+            self.resize(dimension);
         }
 
 
@@ -288,20 +297,16 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
 
             for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                 let rhs_d = out_deg - lhs_d;
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        self.as_mut_slice()
-                            .get_unchecked_mut(
-                                TensorBasis::<NLETTERS>::degree_range(out_deg)),
-                        lhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
-                        rhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
-                        &mut func
-                    );
-                }
+                let rhs_deg_range = TensorBasis::<NLETTERS>::degree_range(rhs_d);
+                dense_tensor_multiply_into_buffer(
+                    &mut self.as_mut_slice()[TensorBasis::<NLETTERS>::degree_range(out_deg)],
+                    coefficients_in_range(
+                        lhs_r.as_slice(),
+                        TensorBasis::<NLETTERS>::degree_range(lhs_d)),
+                    coefficients_in_range(rhs_r.as_slice(), rhs_deg_range.clone()),
+                    rhs_deg_range.len(),
+                    &mut func
+                );
             }
         }
     }
-- 
2.43.0


From 7f2e8b5c83d5790b66e86288419c8adf86264159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 12/22] fix: building a dense vector does not trust the basis
 with memory safety

---
 src/vector/implementation/simple_dense_vector.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 77ebb47..4087839 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -179,12 +179,8 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
         let k = key.into();
         let size = Self::BasisType::vector_dimension_for_key(&k);
         let mut new_vect = Self::from_dimension(size);
-        unsafe {
-            // We have just created the vector to have at least size+1 elements
-            // So this is safe
-            *new_vect.as_mut_slice()
-                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();
-        }
+        // A basis is safe to implement, so its dimension and index must not be trusted blindly
+        new_vect.as_mut_slice()[Self::BasisType::key_to_index(&k)] = scalar.into();
         new_vect
     }
 
@@ -203,10 +199,8 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
         let mut result = Self::from_dimension(dimension);
 
         // We have just created a vector large enough to accomodate all these indices.
-        unsafe {
-            for (i, v) in vec.into_iter() {
-                Self::ScalarType::add_inplace(result.as_mut_slice().get_unchecked_mut(i), &v);
-            }
+        for (i, v) in vec.into_iter() {
+            Self::ScalarType::add_inplace(&mut result.as_mut_slice()[i], &v);
         }
 
         result
-- 
2.43.0


From 6f870664de10da6cc19307fe72d0cac4102a74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 13/22] fix: mul_rat_rdiv divides by the rational

---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From 386db7ff2fbe31a74e3da6b7e9d500b5c2c65fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 14/22] fix: tensor exp, fmexp and log include every term up to
 the maximum degree

---
 src/free_tensor/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,13 +67,13 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 064e12b0bf750c09290e8031df9b79a0c518ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 15/22] fix: the tensor basis over a single letter has one word
 of each degree

---
 src/free_tensor/tensor_basis/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 16d2d23..8a39cef 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,6 +28,9 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
+        if NLETTERS == 1 {
+            return deg as DimensionType;
+        }
         (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
     }
 
-- 
2.43.0


From 408789e63b11fc0e7d7d2f6a9906e3f5de202a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 16/22] fix: the Mobius function terminates on composite
 square-free numbers

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From f20fad4df36230ebbee489008edb9bf08bd79f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 17/22] fix: the size of a Hall set level is rounded once, not
 term by term

---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From 1e415f1ec4205bb2d22ab4798dc792aeff3e0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 18/22] fix: the last Hall key of each degree is given that
 degree

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From b07731ec785ebd59bd6013abf24ea0b8316e9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 19/22] fix: a Hall key's parents are looked up by their own
 keys

---
 src/lie/lie_basis/hall_key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..f807dae 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -83,7 +83,7 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
     pub fn lparent(&self) -> Self
     {
         let mut hs = get_hall_set::<NLETTERS>(None);
-        let (key, lparent, rparent, sz) = hs.rparent_details(self.get_rparent() as DataType)
+        let (key, lparent, rparent, sz) = hs.key_details(self.get_lparent() as DataType)
             .expect("encountered a problem getting parent data");
         Self(Self::make_key_data(key, lparent, rparent, sz))
     }
@@ -91,7 +91,7 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
     pub fn parent(&self) -> Self
     {
         let mut hs = get_hall_set::<NLETTERS>(None);
-        let (key, lparent, rparent, sz) = hs.rparent_details(self.get_rparent() as DataType)
+        let (key, lparent, rparent, sz) = hs.key_details(self.get_rparent() as DataType)
             .expect("encountered a problem getting parent data");
 
         Self(Self::make_key_data(key, lparent, rparent, sz))
-- 
2.43.0


From 997fff37a97c8c8e31ce48a861b7ad69929d680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 20/22] fix: the Hall set cache does not deadlock on the first
 request for a width

---
 src/lie/lie_basis/hall_set.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..860dcdb 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock must be released before the write lock is requested.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
-- 
2.43.0


From 767e6e50bb24ca23b4d1084b2688205e0b4505a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 21/22] fix: concurrent first requests for a width share one
 Hall set

---
 src/lie/lie_basis/hall_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 860dcdb..61170c5 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -268,8 +268,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS)
+            .or_insert(new_hs)
+            .clone()
     }
 
 }
-- 
2.43.0


From 1dc50772c622848eb1623711a11917bd605696ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:38 +0000
Subject: [PATCH 22/22] fix: concatenating to the empty word does not shift by
 the full width

---
 src/free_tensor/tensor_basis/tensor_key.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8515e1f..02bec86 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -161,6 +161,10 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if self.size() + other.size() > Self::max_depth() {
             panic!("Number of letters exceeds maximum depth");
         }
+        if self.size() == 0 {
+            // There is nothing to shift, and the other word may fill all the bits
+            return Self { size: other.size(), data: other.data() };
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0

