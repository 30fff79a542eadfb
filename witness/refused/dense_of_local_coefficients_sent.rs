// refused: E0277
// a dense vector of coefficients that must stay in one thread cannot be moved to another
use rustyalgebra::basis::*;
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::vector::implementation::*;
fn sent<T: Send>() {}
pub fn w<B, S>() where B: 'static + OrderedBasis + Send + Sync, S: 'static + CoefficientField {
    sent::<SimpleDenseVector<'static, B, S>>();
}
