// refused: E0505
// the coefficients of a dense vector cannot be seen as a slice after the vector is gone
use rustyalgebra::vector::*;
pub fn w<'v, V: DenseVector<'v>>(v: V) -> usize {
    let s = v.as_slice();
    drop(v);
    s.len()
}
