// refused: E0502
// a sparse vector cannot change while it is iterated over
use rustyalgebra::basis::Basis;
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::*;
use std::hash::Hash;
pub fn w<B, S, K>(v: &mut SimpleSparseVector<'static, B, S, K>)
    where B: 'static + Basis<KeyType=K>, K: 'static + Hash + Eq + Clone, S: 'static + CoefficientField
{
    for _ in &*v {
        v.clear();
    }
}
