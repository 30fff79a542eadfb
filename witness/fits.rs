//! Programs a user may write against the library. Each module is one witness: it has to type-check,
//! for every type and alphabet its generic functions quantify over. Nothing here is ever run.
#![allow(dead_code, unused_variables, unused_imports, unused_mut)]

mod prelude {
    pub use rustyalgebra::algebra::Algebra;
    pub use rustyalgebra::basis::*;
    pub use rustyalgebra::coefficients::*;
    pub use rustyalgebra::free_tensor::*;
    pub use rustyalgebra::vector::implementation::{SimpleDenseVector, SimpleSparseVector};
    pub use rustyalgebra::vector::*;
    pub use rustyalgebra::{DegreeType, DimensionType, LetterType};
    pub use std::borrow::{Borrow, BorrowMut};
    pub use std::fmt::{self, Debug, Display};
    pub use std::hash::Hash;
    pub use std::ops::{Deref, DerefMut};

    pub fn vector<'v, V>() where V: Vector<'v> {}
    pub fn vector_over<'v, V, B, S>()
        where B: Basis, S: CoefficientField,
              V: Vector<'v, BasisType=B, KeyType=B::KeyType, ScalarType=S, RationalType=S::RationalType> {}
    pub fn dense<'v, V: DenseVector<'v> + ResizeableDenseVector<'v>>() {}
    pub fn graded<'v, V: VectorWithDegree<'v>>() where V::BasisType: BasisWithDegree {}
    pub fn algebra<'v, V: Algebra<'v>>() {}
    pub fn shared<T: Send + Sync>() {}
}

/// dense vectors over any ordered basis and any coefficients are vectors
mod dense_any_basis {
    use crate::prelude::*;
    fn w<'a, B: 'static + OrderedBasis, S: 'static + CoefficientField>() {
        vector_over::<SimpleDenseVector<'a, B, S>, B, S>();
        dense::<SimpleDenseVector<'a, B, S>>();
    }
    fn made<'a, B: OrderedBasis, S: CoefficientField>(v: Vec<S>, n: DimensionType) -> [SimpleDenseVector<'a, B, S>; 3] {
        [SimpleDenseVector::new(), SimpleDenseVector::from(v), SimpleDenseVector::from_dimension(n)]
    }
}

/// dense vectors over any ordered basis with degrees have a degree
mod dense_any_graded_basis {
    use crate::prelude::*;
    fn w<'a, B: 'static + OrderedBasisWithDegree, S: 'static + CoefficientField>() {
        graded::<SimpleDenseVector<'a, B, S>>();
    }
}

/// sparse vectors over any basis with hashable keys are vectors
mod sparse_any_basis {
    use crate::prelude::*;
    fn w<'a, B, S, K>()
        where B: 'static + Basis<KeyType=K>, K: 'static + Hash + Eq + Clone + Display, S: 'static + CoefficientField
    {
        vector_over::<SimpleSparseVector<'a, B, S, K>, B, S>();
    }
}

/// whatever dereferences to a vector and converts from it is a vector
mod any_wrapper {
    use crate::prelude::*;
    fn w<'v, U, V>()
        where U: Vector<'v>, V: 'v + Deref<Target=U> + DerefMut + From<U> + PartialEq
    {
        vector::<'v, V>();
    }
    #[derive(PartialEq)]
    struct Mine<T>(T);
    impl<T> Deref for Mine<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
    impl<T> DerefMut for Mine<T> { fn deref_mut(&mut self) -> &mut T { &mut self.0 } }
    impl<T> From<T> for Mine<T> { fn from(t: T) -> Self { Mine(t) } }
    fn own<'v, U: Vector<'v>>() { vector::<'v, Mine<U>>(); }
    fn twice<'v, U: Vector<'v>>() { vector::<'v, Mine<Mine<U>>>(); }
}

/// tensors over any alphabet are vectors over the words, and are converted from and to dense vectors
mod tensors {
    use crate::prelude::*;
    fn w<'a, S: 'static + CoefficientField, const N: DegreeType>() {
        vector_over::<DenseTensor<'a, S, N>, TensorBasis<N>, S>();
    }
    fn there<'a, S: CoefficientField, const N: DegreeType>(v: SimpleDenseVector<'a, TensorBasis<N>, S>) -> DenseTensor<'a, S, N> {
        v.into()
    }
    fn back<'a, S: CoefficientField, const N: DegreeType>(t: DenseTensor<'a, S, N>) -> SimpleDenseVector<'a, TensorBasis<N>, S> {
        t.into()
    }
    fn seen<'t, 'a, S: CoefficientField, const N: DegreeType>(t: &'t mut DenseTensor<'a, S, N>) -> &'t mut SimpleDenseVector<'a, TensorBasis<N>, S> {
        let r: &SimpleDenseVector<'a, TensorBasis<N>, S> = &*t;
        &mut *t
    }
}

/// any resizable dense vector over the words of any alphabet can be multiplied
mod multiplication {
    use crate::prelude::*;
    fn w<'v, V, S, const N: DegreeType>()
        where S: CoefficientField, V: ResizeableDenseVector<'v, BasisType=TensorBasis<N>, ScalarType=S> + VectorWithDegree<'v>
    {
        algebra::<'v, V>();
    }
    fn dense<'a, S: 'static + CoefficientField, const N: DegreeType>() {
        algebra::<SimpleDenseVector<'a, TensorBasis<N>, S>>();
    }
}

/// words are ordered, have degrees and are the keys of the basis, over any alphabet
mod words {
    use crate::prelude::*;
    fn basis<B: OrderedBasisWithDegree>() {}
    fn w<const N: DegreeType>() {
        basis::<TensorBasis<N>>();
        fn key<K: Clone + PartialEq + Debug + Display + Send + Sync + 'static>() {}
        key::<TensorKey<N>>();
    }
    fn keys<const N: DegreeType>() -> impl Iterator<Item=TensorKey<N>> { TensorBasis::<N>::iter_keys() }
    fn made<const N: DegreeType>(l: LetterType, ls: &[LetterType]) -> TensorKey<N> {
        let mut k = TensorKey::<N>::from_letter(l).concatenate(&TensorKey::from_letters(ls));
        k.push_front(l);
        k
    }
    fn read<const N: DegreeType>(k: &TensorKey<N>) -> (DegreeType, LetterType, Vec<LetterType>, DegreeType) {
        (k.size(), k.get_letter(0), k.to_letters(), TensorKey::<N>::max_depth())
    }
}

/// operands by value, by reference or boxed; in-place operations can be chained
mod operands {
    use crate::prelude::*;
    fn pure<'v, V: Vector<'v>>(a: &V, b: V, c: V) -> [V; 4] { [a.add(&b), a.sub(&c), a.add(b), a.sub(Box::new(c))] }
    fn inplace<'v, V: Vector<'v>>(a: &mut V, b: &V, c: V, d: V) {
        a.add_inplace(b).sub_inplace(b).uminus_inplace().add_inplace(c).sub_inplace(Box::new(d));
        let n = a.uminus();
    }
    fn swapped<'v, V: Vector<'v>>(a: &mut V, b: &mut V, c: V) { a.swap(b); a.swap(c); }
    fn scaled<'v, V: Vector<'v>>(a: &mut V, s: V::ScalarType, r: fn() -> V::RationalType) -> [V; 4] {
        a.scalar_lmultiply_inplace(s.clone()).scalar_rmultiply_inplace(s.clone()).scalar_rdivide_inplace(r()).scalar_ldivide_inplace(r());
        [a.scalar_lmultiply(s.clone()), a.scalar_rmultiply(s), a.scalar_rdivide(r()), a.scalar_ldivide(r())]
    }
    fn combined<'v, V: Vector<'v>>(a: &mut V, b: &V, s: V::ScalarType, r: fn() -> V::RationalType) {
        a.add_scalar_rmultiply(b, s.clone()).add_scalar_lmultiply(b, s.clone()).sub_scalar_rmultiply(b, s.clone()).sub_scalar_lmultiply(b, s)
         .add_scalar_rdivide(b, r()).add_scalar_ldivide(b, r()).sub_scalar_rdivide(b, r()).sub_scalar_ldivide(b, r());
    }
    fn products<'v, A: Algebra<'v>>(a: &mut A, b: &A, c: A, s: A::ScalarType, d: Option<DegreeType>) -> [A; 3] {
        a.multiply_inplace(b, d);
        a.add_mul(b, b, d);
        a.sub_mul(b, b, d);
        a.mul_scal_lprod(b, s.clone(), d);
        a.mul_scal_rprod(b, s, d);
        [a.multiply(b, d), a.commutator(b, d), a.multiply(c, d)]
    }
    fn quotients<'v, A: Algebra<'v>>(a: &mut A, b: &A, r: fn() -> <A::ScalarType as CoefficientField>::RationalType, d: Option<DegreeType>) {
        a.mul_rat_ldiv(b, r(), d);
        a.mul_rat_rdiv(b, r(), d);
    }
}

/// keys by value or by reference, and keys and scalars in any form that converts
mod keys {
    use crate::prelude::*;
    fn w<'v, V: Vector<'v>>(v: &mut V, k: fn() -> V::KeyType, s: V::ScalarType, pairs: Vec<(V::KeyType, V::ScalarType)>) {
        let _ = (v.get(k()).is_some(), v.get(&k()).is_some(), v.get_mut(k()).is_some(), v.get_mut(&k()).is_some());
        v.insert_single(&k(), s.clone());
        v.insert_single(&k(), 1i8);
        v.insert(pairs);
        v.insert(Some((k(), s)));
        v.insert(std::iter::empty());
        v.erase(k());
        v.erase(&k());
        v.clear();
    }
    fn from<'v, V: Vector<'v>>(k: fn() -> V::KeyType, s: V::ScalarType, it: impl Iterator<Item=(V::KeyType, V::ScalarType)>) -> [V; 6] {
        [V::new(), V::from_key(k()), V::from_key_scalar(k(), s.clone()), V::from_key_scalar(k(), 2i16), V::from_iterator(it), V::from_iterator(vec![(k(), s)])]
    }
    struct Named;
    impl From<Named> for TensorKey<3> { fn from(_: Named) -> Self { TensorKey::new() } }
    fn converted<'v, V: Vector<'v, KeyType=TensorKey<3>>>() -> [V; 2] { [V::from_key(Named), V::from_key_scalar(Named, 1i8)] }
    fn one<'v, V: Vector<'v>>(v: &mut V, k: &V::KeyType, s: V::ScalarType) {
        v.add_scalar_multiply(k, s.clone()).sub_scalar_multiply(k, s).add_scalar_multiply(k, 1i8).add_scalar_divide(k, 2i8).sub_scalar_divide(k, 3i16);
    }
    fn slices<'v, V: ResizeableDenseVector<'v>>(v: &mut V) {
        let n = v.as_slice().len();
        let _ = (v.get_slice(0).is_some(), v.get_slice(1..n).is_some(), v.get_mut_slice(..).is_some());
        v.as_mut_slice().reverse();
        v.resize(n + 1);
    }
}

/// exp, log and fused multiply-exp for every tensor type
mod series {
    use crate::prelude::*;
    fn w<'v, S: CoefficientField, T: FreeTensor<'v, S, N>, const N: DegreeType>(x: &mut T, y: &T, z: T) -> [T; 2] {
        x.fmexp(y).fmexp(z);
        [x.exp(), x.log()]
    }
}

/// a coefficient type that only clones and compares, as a user may write one
mod own_coefficients {
    use crate::prelude::*;
    #[derive(Clone, PartialEq)]
    pub struct C(Vec<String>);
    pub struct Q(Box<i16>);
    impl CoefficientBase for C {}
    impl Commutative for C {}
    impl From<i8> for C { fn from(_: i8) -> C { C(Vec::new()) } }
    impl From<i16> for C { fn from(_: i16) -> C { C(Vec::new()) } }
    impl From<i8> for Q { fn from(x: i8) -> Q { Q(Box::new(x.into())) } }
    impl From<i16> for Q { fn from(x: i16) -> Q { Q(Box::new(x)) } }
    impl FromDegreeType for C { fn from_degree(_: &DegreeType) -> C { C(Vec::new()) } }
    impl FromDegreeType for Q { fn from_degree(_: &DegreeType) -> Q { Q(Box::new(0)) } }
    impl CoefficientField for C {
        type RationalType = Q;
        const ZERO: C = C(Vec::new());
        const ONE: C = C(Vec::new());
        const MONE: C = C(Vec::new());
        fn uminus(&self) -> C { self.clone() }
        fn inv(arg: impl Borrow<Q>) -> C { C::ZERO }
        fn add(&self, other: &C) -> C { self.clone() }
        fn sub(&self, other: &C) -> C { self.clone() }
        fn mul(&self, other: &C) -> C { self.clone() }
        fn div(&self, other: &Q) -> C { self.clone() }
        fn add_inplace(&mut self, other: &C) -> &mut C { self }
        fn sub_inplace(&mut self, other: &C) -> &mut C { self }
        fn mul_inplace(&mut self, other: &C) -> &mut C { self }
        fn div_inplace(&mut self, other: &Q) -> &mut C { self }
    }
    fn w<'a>() {
        vector::<SimpleDenseVector<'a, TensorBasis<2>, C>>();
        algebra::<SimpleDenseVector<'a, TensorBasis<2>, C>>();
        vector::<DenseTensor<'a, C, 5>>();
        let _ = C::from_rational(1i8, 2i16);
    }
}

/// a basis whose keys compare and print and do nothing else, as a user may write one
mod own_basis {
    use crate::prelude::*;
    #[derive(PartialEq)]
    pub struct Key(Vec<u8>);
    impl Display for Key { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
    pub struct B;
    impl Basis for B { type KeyType = Key; }
    impl OrderedBasis for B {
        type KeyIterator = std::vec::IntoIter<Key>;
        fn compare(lhs: &Key, rhs: &Key) -> std::cmp::Ordering { lhs.0.cmp(&rhs.0) }
        fn iter_keys() -> Self::KeyIterator { Vec::new().into_iter() }
        fn key_to_index(key: &Key) -> DimensionType { 0 }
        fn index_to_key(index: DimensionType) -> Key { Key(Vec::new()) }
        fn vector_dimension_for_key(key: &Key) -> DimensionType { 1 }
        fn vector_dimension_for_index(index: impl Into<DimensionType>) -> DimensionType { 1 }
    }
    impl BasisWithDegree for B { fn degree(key: &Key) -> DegreeType { 0 } }
    impl OrderedBasisWithDegree for B {
        fn index_to_degree(index: DimensionType) -> DegreeType { 0 }
        fn start_of_degree(deg: DegreeType) -> DimensionType { 0 }
    }
    fn w<'a>() {
        vector_over::<SimpleDenseVector<'a, B, f64>, B, f64>();
        graded::<SimpleDenseVector<'a, B, crate::own_coefficients::C>>();
    }
    fn printed<'a>(v: SimpleDenseVector<'a, B, f32>) -> String { v.to_string() }
}

/// f32 and f64 are coefficients, with themselves as rationals
mod floats {
    use crate::prelude::*;
    fn field<S: CoefficientField<RationalType=S> + Send + Sync + 'static>() {}
    fn w() { field::<f32>(); field::<f64>(); }
}

/// vectors of printable coefficients over keys that print can be printed; dense vectors copied
mod printing {
    use crate::prelude::*;
    fn shown<T: Display>(_: T) {}
    fn w<'a, B: OrderedBasis, S: CoefficientField + Display>(v: &SimpleDenseVector<'a, B, S>) { shown(v); }
    fn copied<'a, B: OrderedBasis, S: CoefficientField>(v: &SimpleDenseVector<'a, B, S>) -> SimpleDenseVector<'a, B, S> { v.clone() }
    fn debugged<'a, B: OrderedBasis + Debug, S: CoefficientField + Debug>(v: &SimpleDenseVector<'a, B, S>) -> String { format!("{:?}", v) }
    fn same<'a, B: OrderedBasis, S: CoefficientField>(v: &SimpleDenseVector<'a, B, S>, w: &SimpleDenseVector<'a, B, S>) -> bool { v == w }
}

/// the stored pairs of any sparse vector can be iterated over
mod iteration {
    use crate::prelude::*;
    fn w<'v, 'a: 'v, B, S, K>(v: &'v SimpleSparseVector<'a, B, S, K>) -> Vec<(&'v K, &'v S)>
        where B: 'v + Basis<KeyType=K>, K: 'a + Hash + Eq + Clone, S: 'a + CoefficientField
    {
        let mut out = Vec::new();
        for item in v { out.push((item.key(), item.value())); }
        out
    }
}

/// vectors over thread-safe bases and coefficients can be moved to and shared between threads
mod threads {
    use crate::prelude::*;
    fn w<B, S, K>()
        where B: 'static + OrderedBasis + Basis<KeyType=K> + Send + Sync, S: 'static + CoefficientField + Send + Sync,
              K: 'static + Hash + Eq + Clone + Display + Send + Sync
    {
        shared::<SimpleDenseVector<'static, B, S>>();
        shared::<SimpleSparseVector<'static, B, S, K>>();
    }
    fn moved<S: 'static + CoefficientField + Send + Sync, const N: DegreeType>(t: DenseTensor<'static, S, N>) {
        std::thread::spawn(move || { drop(t); });
    }
    fn tensor<S: 'static + CoefficientField + Send + Sync, const N: DegreeType>() {
        shared::<DenseTensor<'static, S, N>>();
        shared::<TensorBasis<N>>();
        shared::<TensorKey<N>>();
        shared::<TensorKeyIterator<'static, N>>();
        shared::<<TensorBasis<N> as OrderedBasis>::KeyIterator>();
    }
}
