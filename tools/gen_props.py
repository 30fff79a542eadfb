import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':state} if state else {}), observe_at=observe or [], hook_needed=None)))
D='src/vector/implementation/simple_dense_vector.rs'; S='src/vector/implementation/simple_sparse_vector.rs'
W='src/vector/implementation/deref_impl.rs'; V='src/vector/traits/vector.rs'; X='src/vector/traits/extension.rs'
A='src/algebra/mod.rs'; T='src/free_tensor/implementation/dense.rs'; F='src/free_tensor/mod.rs'
K='src/free_tensor/tensor_basis/tensor_key.rs'; TB='src/free_tensor/tensor_basis/mod.rs'; KI='src/free_tensor/tensor_basis/key_iterator.rs'
CF='src/coefficients/floating_point_fields.rs'; CM='src/coefficients/mod.rs'
DR='src/lie/lie_basis/degree_range_map.rs'; HK='src/lie/lie_basis/hall_key.rs'; HS='src/lie/lie_basis/hall_set.rs'
p('C01','Safe code cannot cause undefined behaviour',
 'Whatever vectors, keys, degrees, dimensions, user-written bases and user-written coefficient types a program passes to the library, no call ever reads or writes outside the memory it owns or has borrowed: a request that cannot be served is answered with none, an error or a panic. The library performs no unchecked access whose bounds depend on a value its caller chose.',
 ['inputs','programs'],'every program using only safe Rust, every operand length, storage and truncation degree, every (even inconsistent) basis implementation',
 'Tests sample well-formed operands; an out-of-bounds access needs a particular combination of operand lengths, storage and degree (or an inconsistent user-written basis), and may go unnoticed even when it happens.',
 [D,S,T,K,TB,W],[('checked indexing everywhere; no unsafe operation','whole crate')],['any public call'])
p('C02','Coefficient arithmetic of f32 and f64 is field arithmetic',
 'For both floating-point coefficient types, the sum, difference, product, quotient, negation and inverse of any coefficients are those of the field (up to rounding), zero, one and minus one are those numbers, and converting a degree or a fraction gives that number. Each in-place operation leaves in its target exactly what the corresponding pure operation returns, returns the target, and changes nothing else.',
 ['inputs'],'every pair of coefficients of f32 and f64',
 'There are no tests of the coefficient types at all; every vector operation relies on them for every value.',
 [CF,CM],[('CoefficientField impls','src/coefficients/floating_point_fields.rs'),('from_rational default','src/coefficients/mod.rs')])
p('C03','Derived vector operations follow from the basic ones',
 'For every vector type, the operations that return a new vector (negate, add, subtract, scale on either side, divide) give what the in-place operation would leave in a copy, and the combined operations add or subtract exactly the scaled or divided operand. They leave every operand other than the target of an in-place operation unchanged, and in-place operations return their target.',
 ['inputs','programs'],'every implementation of the vector trait, every operand and scalar',
 'The derived operations are generic; tests call two or three of them on one concrete type with one or two values, and a swapped sign, side or operand shows only in the ones not called.',
 [V],[('default methods of the vector trait','src/vector/traits/vector.rs')])
p('C04','Updating one coefficient changes that coefficient by that amount',
 'Adding (or subtracting) a scalar at a key raises (or lowers) the coefficient of that key by the scalar, and adding (or subtracting) the reciprocal of a rational at a key raises (or lowers) it by one over the rational. This is so whether or not the key already has a coefficient stored, and no other coefficient changes.',
 ['inputs','histories'],'every vector type, key (present or absent), scalar and rational',
 'No test calls these operations; present and absent keys take different branches, with different signs.',
 [X],[('VectorKeyExt default methods','src/vector/traits/extension.rs')])
p('C05','Dense vector arithmetic is coefficient by coefficient, for any lengths',
 'For dense vectors of any lengths and any storage (owned, borrowed or mutably borrowed), negating, adding, subtracting, scaling and dividing in place act on every coefficient independently, a coefficient beyond the end of a vector counting as zero, and the result is as long as the longer operand. The right operand, and data the target only borrows immutably, are never modified.',
 ['inputs','configurations'],'every pair of lengths, every storage kind of either operand, every coefficient value',
 'Tests use vectors of one fixed length that own their data; unequal lengths and borrowed storage take other branches.',
 [D],[('in-place operations of SimpleDenseVector and its copy-on-write slices','src/vector/implementation/simple_dense_vector.rs')])
p('C06','Dense vectors store and return the coefficient of each key',
 'Building a dense vector from a key, a key and a scalar, or any sequence of pairs (in any order, with repeats, whose coefficients add up) gives the vector with those coefficients and zero elsewhere. Reading a key gives its coefficient or none beyond the end; inserting (growing the vector where needed), erasing, resizing, clearing, copying and swapping change exactly the coefficients they name, whatever the storage.',
 ['inputs','histories','configurations'],'every key, sequence of pairs, vector length and storage kind, every ordered basis',
 'Tests build a handful of short sequences over one toy basis; order, repetition, growth and borrowed storage are quantified over.',
 [D,'src/vector/traits/dense_vector.rs'],[('construction and access of SimpleDenseVector','src/vector/implementation/simple_dense_vector.rs')])
p('C07','Sparse vector arithmetic is coefficient by coefficient',
 'For sparse vectors with any sets of stored keys, negating, adding, subtracting, scaling and dividing in place give, for every key, the coefficient that the operation on the two coefficients gives, a key that is not stored counting as zero. A coefficient that addition or subtraction cancels to zero is no longer stored, scaling by zero leaves nothing stored, and the right operand is not modified.',
 ['inputs'],'every pair of key sets (disjoint, overlapping, equal), every coefficient including cancelling ones, every iteration order of the hash map',
 'The sparse vector has no tests; cancellation, missing keys and hash order are combinations a test samples one at a time.',
 [S],[('in-place operations of SimpleSparseVector','src/vector/implementation/simple_sparse_vector.rs')])
p('C08','Sparse vectors store and return the coefficient of each key',
 'Building a sparse vector from a key, a key and a scalar, or any sequence of pairs (repeated keys adding up) gives the vector with those coefficients. Reading, inserting, erasing, clearing, copying, swapping and iterating see or change exactly the coefficients of the keys they name.',
 ['inputs','histories'],'every key, value, sequence of pairs and stored key set',
 'The sparse vector has no tests.',
 [S],[('construction and access of SimpleSparseVector','src/vector/implementation/simple_sparse_vector.rs')])
p('C09','A wrapped vector behaves as the vector it wraps',
 'For every type that wraps a vector (dereferences to it and converts from it), each vector operation on the wrapper has the effect, the result and the operand order of the same operation on the wrapped vector (a left scaling forwards to the left scaling, a right one to the right), and an in-place operation returns the wrapper. The dense tensor type wraps its dense vector without altering it.',
 ['programs','inputs'],'every wrapper type, every wrapped vector type, every operation and operand',
 'No test uses a wrapper; each of some thirty forwarding methods can forward to the wrong one.',
 [W,T],[('blanket impl of the vector trait for Deref wrappers','src/vector/implementation/deref_impl.rs'),('Deref, DerefMut, From and Into of DenseTensor','src/free_tensor/implementation/dense.rs')])
p('C10','Tensor multiplication is the truncated concatenation product',
 'For dense tensors over any alphabet, of any lengths (including a partly filled top degree) and any truncation degree, multiply-and-accumulate adds to the coefficient of every word w of at most the truncation degree the sum, over all ways to split w in two, of the given function of the product of the left coefficient of the first part and the right coefficient of the second, and changes no other coefficient. In-place multiplication replaces the target with that product, and neither operation modifies its operands.',
 ['inputs','configurations'],'every alphabet width, operand length and degree, truncation degree, coefficient values and accumulated target',
 'One test multiplies two single letters; unequal degrees, truncation below the degree of the product, partly filled operands and a non-empty target are not reached.',
 [T],[('Algebra impl for dense tensors and its multiplication buffer helper','src/free_tensor/implementation/dense.rs')])
p('C11','Derived algebra operations follow from multiply-and-accumulate',
 'For every algebra, the product of two elements, the in-place product, adding or subtracting a product, the commutator, and the products scaled by a scalar or divided by a rational are those expressions in the multiplication, with the operands in the given order, the given sign and the caller\'s truncation degree. Operands other than the in-place target are unchanged.',
 ['inputs','programs'],'every algebra implementation, operands, scalars and truncation degrees',
 'Only the plain product is called by a test; signs, operand order and the truncation degree of the other eight operations are not.',
 [A],[('default methods of the algebra trait','src/algebra/mod.rs')])
p('C12','Tensor exp, fused multiply-exp and log are the truncated power series',
 'For every tensor x and maximum degree D, exp gives the sum of x^k/k! for k from 0 to D, fused multiply-exp replaces the target a by a times exp(x) up to degree D with the scalar part of x ignored, and log gives the sum of (-1)^(k+1) x^k/k for k from 1 to D with the scalar part of x ignored. All terms up to D are included, with the operands in that order, and x is unchanged.',
 ['inputs','configurations'],'every maximum degree, every tensor and algebra implementation',
 'No test calls them; a wrong bound or divisor shows only at the highest degree.',
 [F],[('FreeTensor default methods exp, fmexp and log','src/free_tensor/mod.rs')])
p('C13','Tensor words keep their letters',
 'For every alphabet and every word up to the maximum length, a word built from letters, from one letter, by putting a letter in front, or by concatenating two words has exactly those letters, in that order, and its number of letters as size; reading a letter by position (counted from the end), listing the letters and iterating over them return them. Building or concatenating beyond the maximum length panics, and two words are equal exactly when their letters are.',
 ['inputs','configurations'],'every alphabet width, word length up to the maximum, letter and position',
 'Tests use width 3 and words of at most five letters; packing errors show at other widths, at positions near the maximum length or with the largest letter.',
 [K,'src/implementation.rs'],[('packing of letters into 64 bits','src/free_tensor/tensor_basis/tensor_key.rs'),('bit masks','src/implementation.rs')],
 state=[dict(name='size, data',meaning='word length and packed letters',where=K)])
p('C14','The index of a word numbers all words, by length and then in order',
 'For every alphabet, words and indices correspond one to one: converting a word to its index and back gives the word, indices run over the words by length and then lexicographically, with the empty word first, and comparing two words agrees with comparing their indices. Iterating over the words, from the start or from a given word, yields each word followed by the one with the next index and ends after the last word of maximum length.',
 ['inputs','configurations'],'every alphabet width and word up to the maximum length',
 'Tests check width 3 up to three letters; carries across many letters, other widths and the end of the iteration are not reached.',
 [TB,KI],[('key_to_index, index_to_key, compare','src/free_tensor/tensor_basis/mod.rs'),('TensorBasisIterator','src/free_tensor/tensor_basis/key_iterator.rs')])
p('C15','Degrees occupy consecutive blocks of indices',
 'For every alphabet (one letter included) and degree, the words of that degree occupy one block of consecutive indices, which starts at the number of shorter words; the degree of an index and of a word, the dimension needed to hold a word or an index (complete up to its degree), and the degree of a dense vector are consistent with those blocks.',
 ['inputs','configurations'],'every alphabet width, degree, index and word whose block fits the index type',
 'No test computes a block or a degree for another width than 3, at a block boundary or beyond degree 3.',
 [TB,D],[('start_of_degree, degree_range, index_to_degree, vector_dimension_for_*','src/free_tensor/tensor_basis/mod.rs'),('VectorWithDegree::degree','src/vector/implementation/simple_dense_vector.rs')])
p('C16','The Lie degree table counts and locates Hall basis elements',
 'For every alphabet, the table entry for a degree is the number of Hall basis elements of at most that degree (Witt\'s formula, zero for degree zero), a table created or grown to a degree has the entries it must have and growing never loses or changes entries, and reading beyond the end is an error. Finding the degree of a key gives the least degree whose entry is at least the key, an error if there is none, and an error for an empty table.',
 ['inputs','histories','configurations'],'every width, degree, key and growth history',
 'Tests check width 5 up to degree 5 of a fresh table; square-free composite degrees, growth and the search are not reached.',
 [DR],[('compute::hall_set_size and the Mobius function','src/lie/lie_basis/degree_range_map.rs'),('DegreeRangeMap','src/lie/lie_basis/degree_range_map.rs')])
p('C17','Hall keys keep their fields and find their parents',
 'For every key, parents and size within their field widths, a Hall key gives back exactly the key, left parent, right parent and size it was made with; the key of a letter is that letter with no left parent, itself as right parent and size one. A key is valid exactly when it is not the empty key, a letter exactly when its size is one, its index is its key less one, and its left and right parent are the keys recorded for them in the Hall set of the same width.',
 ['inputs'],'every field value within the 18/18/18/10 bit fields',
 'No test touches Hall keys; a mask or shift off by one shows only for values that use the top bit of a field.',
 [HK,'src/implementation.rs'],[('field packing and parent lookup','src/lie/lie_basis/hall_key.rs')])
p('C18','Shared Hall sets: one per width, no deadlock, consistent locking',
 'Under every interleaving of threads, requesting the Hall set of a width returns the same shared set to every caller, and different widths get different sets of their own width. No thread ever waits for a lock it holds or takes locks in an order that can deadlock, every access to shared data happens under its lock, and changes happen under the exclusive lock.',
 ['schedules','histories'],'every number of threads, order of requests and widths',
 'There are no tests of the cache; the failures need two threads to interleave inside one call, or the first request of a width.',
 [HS],[('HALL_SET_CACHE and get_hall_set','src/lie/lie_basis/hall_set.rs'),('HallSetObject locking','src/lie/lie_basis/hall_set.rs')],
 state=[dict(name='HALL_SET_CACHE',meaning='width to shared Hall set',where=HS)])
p('C19','Every operation is implemented and terminates its own recursion',
 'No operation of the library ends in a not-yet-implemented panic, and none calls itself (directly or through other operations) on every path, so none recurses without end. Delegating operations reach an implementation that is not themselves.',
 ['inputs','programs'],'every public or trait operation, every instantiation of the generic ones',
 'An unimplemented or self-recursive generic operation compiles and passes every test that does not call it.',
 ['src/**'],[('each function body','whole crate')])
p('C20','Hall set queries answer the question asked',
 'For any Hall set contents, the letter test holds exactly for keys from 1 to the width; the details of a key are the key, its two recorded parents and its degree, those of its left or right parent are the details of that parent; the range of a degree runs from the entry of that degree to the next; and a key or degree that is not there is an error. A new Hall set holds the null key, with null parents and degree zero, and the degree table of its width. A shared Hall set answers every query, and passes on every growth request, as the set it holds, and answers with an error once a thread has panicked while changing it.',
 ['inputs','histories'],'every Hall set contents, key and degree',
 'There are no tests of Hall sets.',
 [HS],[('HallSet impls for HallSetInner and HallSetObject','src/lie/lie_basis/hall_set.rs')])
p('C21','Equality and copies see all coefficients and nothing else',
 'Two dense vectors are equal exactly when their stored coefficients are, whatever their storage; two sparse vectors are equal exactly when they store the same keys with equal coefficients, whatever the order of insertion; a wrapper is equal exactly when what it wraps is. A copy of a dense vector is equal to it, owns its data and shares nothing with it.',
 ['inputs','configurations'],'every pair of vectors, storage kinds and insertion histories',
 'No test compares vectors with each other in both directions, with different key sets, or across storage kinds.',
 [D,S,T],[('PartialEq and Clone impls','src/vector/implementation')])
p('C25','Printed words, Hall keys and vectors show exactly what they hold',
 'Printing a word (Display and Debug) writes one pair of parentheses around all its letters as decimal numbers, in the order to_letters lists them, separated by a comma and a space. Debug of a Hall key writes its key, both parents and its size by name; Display writes the key of a letter and the two parents of any other element in brackets, left first. Printing a dense vector writes, for every stored coefficient in index order, the coefficient followed by its key, and nothing else. A write that the underlying writer refuses is reported as an error.',
 ['inputs','fault_sequences'],'every word, Hall key and vector, and every point at which the writer fails',
 'No test prints a key or a vector.',
 [K,HK,D],[('Display and Debug of TensorKey','src/free_tensor/tensor_basis/tensor_key.rs'),('Display and Debug of HallKey','src/lie/lie_basis/hall_key.rs'),('Display of SimpleDenseVector','src/vector/implementation/simple_dense_vector.rs')])
p('C26','Generic code over any basis, coefficients or wrapper fits the library',
 'Every coefficient type and basis that meets the published interfaces works with everything they promise: dense vectors over any ordered basis, sparse vectors over any basis with hashable keys, any wrapper around any vector, multiplication for any resizable dense vector of words over any alphabet, printing wherever coefficients print. Operands and keys are accepted by value and by reference, keys and scalars in any form that converts, and vectors over thread-safe parameters (and only those) can be moved and shared between threads. A reference into a vector cannot be kept while the vector changes or is gone, and a word cannot be made from raw bits.',
 ['programs','configurations'],'every coefficient type, basis, wrapper, alphabet width and vector type',
 'The tests use f64 coefficients, one alphabet and one small basis; a bound that only those types meet compiles and passes.',
 [D,S,W,V,X,A,T,CM,'src/basis/mod.rs'],[('the bounds of the trait implementations','whole crate'),('the signatures of the trait operations','src/vector/traits, src/algebra/mod.rs')])
p('C22','Vector laws hold bit for bit in floating point',
 'Addition of vectors is associative and multiplication distributes over addition exactly, for floating-point coefficients.',
 ['inputs'],'every triple of floating-point vectors','Depends on rounding of every value.',
 [CF],[('f32 and f64 arithmetic','src/coefficients/floating_point_fields.rs')])
p('C23','log and exp are numerically inverse to a stated accuracy',
 'For every tensor with zero scalar part, the logarithm of its exponential is the tensor to within a stated relative error.',
 ['inputs'],'every tensor and maximum degree','An error bound over all inputs cannot be sampled.',
 [F],[('exp and log','src/free_tensor/mod.rs')])
p('C24','A grown Hall set contains exactly the Hall basis of its degree',
 'After growing a Hall set to a degree, it contains every Hall basis element up to that degree exactly once, in order, with its parents.',
 ['inputs','histories'],'every width and degree','There are no tests of growth.',
 [HS],[('grow_up','src/lie/lie_basis/hall_set.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
