// refused: E0451
// a word is made by the operations that keep it well formed, not from raw bits
use rustyalgebra::free_tensor::TensorKey;
pub fn w() -> TensorKey<3> {
    TensorKey::<3> { size: 1, data: 77 }
}
