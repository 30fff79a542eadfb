// refused: E0502
// a part of the coefficients cannot be kept while the vector is resized
use rustyalgebra::vector::*;
pub fn w<'v, V: ResizeableDenseVector<'v>>(v: &mut V) -> bool {
    let s = v.get_slice(0..2);
    v.resize(7);
    s.is_some()
}
