// refused: E0502
// a coefficient that was looked up cannot be kept while the vector changes, for any vector type
use rustyalgebra::vector::*;
pub fn w<'v, V: Vector<'v>>(v: &mut V, k: &V::KeyType) -> bool {
    let c = v.get(k);
    v.clear();
    c.is_some()
}
