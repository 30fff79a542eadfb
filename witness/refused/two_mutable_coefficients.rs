// refused: E0499
// one coefficient cannot be changed through two references, for any vector type
use rustyalgebra::vector::*;
pub fn w<'v, V: Vector<'v>>(v: &mut V, k: &V::KeyType) {
    let (a, b) = (v.get_mut(k), v.get_mut(k));
    drop((a, b));
}
