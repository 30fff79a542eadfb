// refused: E0502
// a coefficient of a tensor cannot be kept while the tensor changes
use rustyalgebra::free_tensor::*;
use rustyalgebra::vector::*;
pub fn w(t: &mut DenseTensor<'static, f64, 3>) -> bool {
    let c = Vector::get(t, TensorKey::new());
    Vector::clear(t);
    c.is_some()
}
