// refused: E0277
// a sparse vector of coefficients that must stay in one thread cannot be moved to another
use rustyalgebra::basis::*;
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::vector::implementation::*;
fn sent<T: Send>() {}
pub fn w<B, S>() where B: 'static + Basis<KeyType=u8> + Send + Sync, S: 'static + CoefficientField {
    sent::<SimpleSparseVector<'static, B, S, u8>>();
}
