// refused: E0502
// the coefficients of a dense vector cannot be seen as a slice while it is resized
use rustyalgebra::vector::*;
pub fn w<'v, V: ResizeableDenseVector<'v>>(v: &mut V) -> usize {
    let s = v.as_slice();
    v.resize(7);
    s.len()
}
