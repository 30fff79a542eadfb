"""Contracts of the crate's traits, used where a method is called on a type parameter.  Every
implementation of these methods in the crate is itself checked against the same contract."""
from .terms import *
from .values import *
from .interp import Diverged, fresh
from . import models as Md
from .models import rd, lastref, refish, heap, ext, gate, need, branch, ungate

def self_ref(st, v):
    """reference to the vector an `impl Borrow<Self>`/`&mut Self` argument denotes"""
    if refish(v):
        r, x = lastref(st, v)
        return r
    return heap(st, v, 'arg')

def vec(st, v):
    return rd(st, v) if refish(v) else v

def canon_key(k):
    if isinstance(k, StructV):
        return app('word', *k.fields)
    return k

# ------------------------------------------------------------------ coefficients
def coefficient(m):
    two = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a * inv(b)}
    if m in two:
        return lambda I, st, f, args, fr, t: two[m](I.num(rd(st, args[0])), I.num(rd(st, args[1])))
    if m.endswith('_inplace') and m[:-8] in two:
        op = two[m[:-8]]
        def inplace(I, st, f, args, fr, t):
            st.write(args[0], op(I.num(rd(st, args[0])), I.num(rd(st, args[1]))))
            return args[0]
        return inplace
    if m == 'uminus':
        return lambda I, st, f, args, fr, t: -I.num(rd(st, args[0]))
    if m == 'inv':
        return lambda I, st, f, args, fr, t: inv(I.num(rd(st, args[0])))
    if m == 'from_rational':
        return lambda I, st, f, args, fr, t: I.num(rd(st, args[0])) * inv(I.num(rd(st, args[1])))
    if m == 'from_degree':
        return lambda I, st, f, args, fr, t: rd(st, args[0])
    return None

# ------------------------------------------------------------------ bases
class AbsBasis:
    """an arbitrary ordered basis with degree: nothing is known but that an index is below the dimension"""
    def key_to_index(self, I, st, k):
        return app('kidx', k, rng=(0, None))
    def dim_for_key(self, I, st, k):
        d = app('kdim', k, rng=(1, None))
        st.assume(lt(self.key_to_index(I, st, k), d))
        return d
    def dim_for_index(self, I, st, i):
        d = app('idim', i, rng=(1, None))
        st.assume(lt(i, d))
        return d
    def index_to_degree(self, I, st, i):
        return app('ideg', i, rng=(0, None))
    def start_of_degree(self, I, st, d):
        return app('sod', d, rng=(0, None))
    def key_degree(self, I, st, k):
        return app('kdeg', k, rng=(0, None))
    def index_to_key(self, I, st, i):
        return app('keyof', i)

class BlockBasis:
    """keys are their own indices; the degree blocks have the given sizes (1, w, w^2, ...)"""
    def __init__(self, w=2, top=6):
        self.starts = [0]
        for d in range(top):
            self.starts.append(self.starts[-1] + w ** d)
    def _deg(self, i):
        d = 0
        while self.starts[d + 1] <= i:
            d += 1
        return d
    def _c(self, i):
        c = i.as_int()
        if c is None:
            raise Undecided('index of an unknown key')
        return c
    def key_to_index(self, I, st, k):
        return k
    def index_to_key(self, I, st, i):
        return i
    def dim_for_key(self, I, st, k):
        return lift(self.starts[self._deg(self._c(k)) + 1])
    dim_for_index = dim_for_key
    def index_to_degree(self, I, st, i):
        return lift(self._deg(self._c(i)))
    key_degree = index_to_degree
    def start_of_degree(self, I, st, d):
        return lift(self.starts[self._c(d)])

class RogueBasis(AbsBasis):
    """a basis whose methods return unrelated numbers (a basis is safe code and may be wrong)"""
    def dim_for_key(self, I, st, k):
        return app('kdim', k, rng=(0, None))
    def dim_for_index(self, I, st, i):
        return app('idim', i, rng=(0, None))

BASIS = ('key_to_index', 'index_to_key', 'vector_dimension_for_key', 'vector_dimension_for_index', 'index_to_degree', 'start_of_degree', 'degree', 'compare', 'iter_keys')

def basis(m):
    def fn(I, st, f, args, fr, t):
        B = I.basis
        if B is None:
            raise Undecided('abstract basis')
        if m == 'key_to_index':
            return B.key_to_index(I, st, rd(st, args[0]))
        if m == 'index_to_key':
            return B.index_to_key(I, st, args[0])
        if m == 'vector_dimension_for_key':
            return B.dim_for_key(I, st, rd(st, args[0]))
        if m == 'vector_dimension_for_index':
            return B.dim_for_index(I, st, rd(st, args[0]))
        if m == 'index_to_degree':
            return B.index_to_degree(I, st, rd(st, args[0]))
        if m == 'start_of_degree':
            return B.start_of_degree(I, st, rd(st, args[0]))
        if m == 'degree':
            return B.key_degree(I, st, rd(st, args[0]))
        if m == 'compare':
            return Md.compare(I, st, B.key_to_index(I, st, rd(st, args[0])), B.key_to_index(I, st, rd(st, args[1])))
        if m == 'iter_keys':
            return IterV(ZERO, (), lambda I, s, k: B.index_to_key(I, s, k), 'keys')
        raise Undecided('basis method %s' % m)
    return fn

# ------------------------------------------------------------------ formal vectors
def sided(side, s):
    return app('side-' + side, s)

def lin_ops():
    O = {}
    def op(*names):
        def d(fn):
            for n in names:
                O[n] = fn
            return fn
        return d

    def val(I, st, a):
        v = vec(st, a)
        if isinstance(v, StructV) and v.tag == 'wrap':
            raise Undecided('wrapper used as inner vector')
        if not isinstance(v, LinV):
            raise Undecided('vector expected, got %r' % (v,))
        return v
    O['__val'] = val

    @op('new')
    def _(I, st, f, args, fr, t):
        return LZERO
    @op('from_key')
    def _(I, st, f, args, fr, t):
        return I.lin_key(canon_key(args[0]))
    @op('from_key_scalar')
    def _(I, st, f, args, fr, t):
        return I.lin_key(canon_key(args[0])).scale(I.num(args[1]))
    @op('from_iterator')
    def _(I, st, f, args, fr, t):
        if isinstance(args[0], StructV) and args[0].tag == 'abslist':
            return LinV({('iter', args[0].fields[0]): ONE})
        acc = heap(st, LZERO, 'acc')
        def add(s, x):
            s.write(acc, s.read(acc) + I.lin_key(canon_key(x.fields[0])).scale(I.num(x.fields[1])))
        Md.each(I, st, Md.to_iter(I, st, args[0]), add)
        return st.read(acc)
    @op('swap')
    def _(I, st, f, args, fr, t):
        a, b = self_ref(st, args[0]), self_ref(st, args[1])
        x, y = val(I, st, a), val(I, st, b)
        st.write(a, y)
        st.write(b, x)
        return UNIT
    @op('to_owned', 'clone')
    def _(I, st, f, args, fr, t):
        return val(I, st, args[0])
    @op('clear')
    def _(I, st, f, args, fr, t):
        st.write(self_ref(st, args[0]), LZERO)
        return UNIT
    @op('get', 'get_mut')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        v = val(I, st, r)
        k = canon_key(rd(st, args[1]))
        c = st.decide(I.lin_pres(v, k))
        if c is False:
            return NONE
        o = some(ext(r, ('co', k)))
        return o if c is True else IteV(c, o, NONE)
    @op('insert_single')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        st.write(ext(r, ('co', canon_key(rd(st, args[1])))), I.num(args[2]))
        return UNIT
    @op('insert')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        if isinstance(args[1], StructV) and args[1].tag == 'abslist':
            v = val(I, st, r)
            st.write(r, LinV({('ins', frozenset(v.t.items()), args[1].fields[0]): ONE}))
            return UNIT
        def ins(s, x):
            s.write(ext(r, ('co', canon_key(x.fields[0]))), I.num(x.fields[1]))
        Md.each(I, st, Md.to_iter(I, st, args[1]), ins)
        return UNIT
    @op('erase')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        st.write(ext(r, ('co', canon_key(rd(st, args[1])))), ZERO)
        return UNIT

    neg_ = lambda I, v, *s: v.scale(MONE)
    # for wrappers the side is kept apart: the operation forwarded to has to be the one asked for
    def mul(side):
        return lambda I, s: sided(side, I.num(s)) if I.wrapper else I.num(s)
    def div(side):
        return lambda I, s: inv(mul(side)(I, s))
    def by(g):
        return lambda I, v, s: v.scale(g(I, s))
    for n, g in (('uminus', neg_), ('scalar_rmultiply', by(mul('r'))), ('scalar_lmultiply', by(mul('l'))),
                 ('scalar_rdivide', by(div('r'))), ('scalar_ldivide', by(div('l')))):
        def pure(I, st, f, args, fr, t, g=g):
            return g(I, val(I, st, args[0]), *[rd(st, a) for a in args[1:]])
        O[n] = pure
        def inpl(I, st, f, args, fr, t, g=g):
            r = self_ref(st, args[0])
            st.write(r, g(I, val(I, st, r), *[rd(st, a) for a in args[1:]]))
            return args[0]
        O[n + '_inplace'] = inpl
    for n, sg in (('add', ONE), ('sub', MONE)):
        def pure(I, st, f, args, fr, t, sg=sg):
            return val(I, st, args[0]) + val(I, st, args[1]).scale(sg)
        O[n] = pure
        def inpl(I, st, f, args, fr, t, sg=sg):
            r = self_ref(st, args[0])
            st.write(r, val(I, st, r) + val(I, st, args[1]).scale(sg))
            return args[0]
        O[n + '_inplace'] = inpl
        for side in 'rl':
            for what, g in (('multiply', mul(side)), ('divide', div(side))):
                def comb(I, st, f, args, fr, t, sg=sg, g=g):
                    r = self_ref(st, args[0])
                    st.write(r, val(I, st, r) + val(I, st, args[1]).scale(sg * g(I, rd(st, args[2]))))
                    return args[0]
                O['%s_scalar_%s%s' % (n, side, what)] = comb

    # ---- algebra
    def func_coef(I, st, fn):
        """the factor by which a coefficient function scales"""
        I.nfn = getattr(I, 'nfn', 0) + 1
        z = var('prodcoef%d' % I.nfn)
        r = I.callv(fn, [heap(st, z, 'tmp')], st)
        r = I.num(r)
        zid, = [k for k, _ in list(z.t)[0]]
        a = r * inv(z)
        return a, r
    def product(I, st, l, r, fn, deg):
        a, raw = func_coef(I, st, fn)
        # a function that is no scaling leaves the coefficient it was given in the factor
        return I.lin_prod(l, r, deg, a)
    @op('multiply_and_add_into_impl')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        p = product(I, st, val(I, st, args[1]), val(I, st, args[2]), args[3], args[4])
        st.write(r, val(I, st, r) + p)
        return UNIT
    @op('multiply_into_impl')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        p = product(I, st, val(I, st, r), val(I, st, args[1]), args[2], args[3])
        st.write(r, p)
        return UNIT
    @op('multiply')
    def _(I, st, f, args, fr, t):
        return I.lin_prod(val(I, st, args[0]), val(I, st, args[1]), args[2], ONE)
    @op('multiply_inplace')
    def _(I, st, f, args, fr, t):
        r = self_ref(st, args[0])
        st.write(r, I.lin_prod(val(I, st, r), val(I, st, args[1]), args[2], ONE))
        return args[0]
    def acc(sg):
        def fn(I, st, f, args, fr, t):
            r = self_ref(st, args[0])
            st.write(r, val(I, st, r) + I.lin_prod(val(I, st, args[1]), val(I, st, args[2]), args[3], sg))
            return args[0]
        return fn
    O['add_mul'] = acc(ONE)
    O['sub_mul'] = acc(MONE)
    @op('commutator')
    def _(I, st, f, args, fr, t):
        a, b = val(I, st, args[0]), val(I, st, args[1])
        return I.lin_prod(a, b, args[2], ONE) + I.lin_prod(b, a, args[2], MONE)
    def scaled(g):
        def fn(I, st, f, args, fr, t):
            r = self_ref(st, args[0])
            st.write(r, I.lin_prod(val(I, st, r), val(I, st, args[1]), args[3], g(I.num(rd(st, args[2])))))
            return args[0]
        return fn
    O['mul_scal_lprod'] = O['mul_scal_rprod'] = scaled(lambda s: s)
    O['mul_rat_ldiv'] = O['mul_rat_rdiv'] = scaled(inv)
    # ---- single coefficients
    def single(g):
        def fn(I, st, f, args, fr, t):
            r = self_ref(st, args[0])
            k = canon_key(rd(st, args[1]))
            st.write(r, val(I, st, r) + I.lin_key(k).scale(g(I.num(rd(st, args[2])))))
            return args[0]
        return fn
    O['add_scalar_multiply'] = single(lambda s: s)
    O['sub_scalar_multiply'] = single(lambda s: -s)
    O['add_scalar_divide'] = single(inv)
    O['sub_scalar_divide'] = single(lambda s: -inv(s))
    return O

LIN = lin_ops()

# ------------------------------------------------------------------ abstract dense vectors: {coefficients}
def dv_ops():
    O = {}
    def mk(s):
        return StructV('dv', 0, (s,))
    def val(st, a):
        v = vec(st, a)
        if not (isinstance(v, StructV) and v.tag == 'dv'):
            raise Undecided('dense vector expected, got %r' % (v,))
        return v.fields[0]
    def sref(st, a):
        return ext(self_ref(st, a), ('f', 0))
    O['new'] = lambda I, st, f, args, fr, t: mk(SeqList(()))
    O['as_slice'] = O['as_mut_slice'] = lambda I, st, f, args, fr, t: sref(st, args[0])
    O['to_owned'] = O['clone'] = lambda I, st, f, args, fr, t: mk(val(st, args[0]))
    def get_slice(I, st, f, args, fr, t):
        return Md.index(I, st, sref(st, args[0]), args[1], fr, t, checked=True)
    O['get_slice'] = O['get_mut_slice'] = get_slice
    def resize(I, st, f, args, fr, t):
        r = sref(st, args[0])
        st.write(r, gate(st, st.read(r), lambda x: seq_resize(x, args[1], ZERO)))
        return UNIT
    O['resize'] = resize
    def swap(I, st, f, args, fr, t):
        a, b = sref(st, args[0]), sref(st, args[1])
        x, y = st.read(a), st.read(b)
        st.write(a, y)
        st.write(b, x)
        return UNIT
    O['swap'] = swap
    def clear(I, st, f, args, fr, t):
        st.write(sref(st, args[0]), SeqList(()))
        return UNIT
    O['clear'] = clear
    def degree(I, st, f, args, fr, t):
        n = seq_len(val(st, args[0]))
        return I.dense_degree(st, n)
    O['degree'] = degree
    def pointwise(g):
        def fn(I, st, f, args, fr, t):
            r = sref(st, args[0])
            v = st.read(r)
            st.write(r, SeqList([g(I, I.num(seq_get(v, lift(i))), *[rd(st, a) for a in args[1:]]) for i in range(clen(v))]))
            return args[0]
        return fn
    def clen(v):
        n = seq_len(v).as_int()
        if n is None:
            raise Undecided('dense operation on unknown length')
        return n
    O['uminus_inplace'] = pointwise(lambda I, x: -x)
    O['scalar_lmultiply_inplace'] = O['scalar_rmultiply_inplace'] = pointwise(lambda I, x, s: x * I.num(s))
    O['scalar_rdivide_inplace'] = O['scalar_ldivide_inplace'] = pointwise(lambda I, x, s: x * inv(I.num(s)))
    def acc(sg):
        def fn(I, st, f, args, fr, t):
            r = sref(st, args[0])
            a, b = st.read(r), val(st, args[1])
            na, nb = clen(a), clen(b)
            st.write(r, SeqList([(seq_get(a, lift(i)) if i < na else ZERO) + sg * (seq_get(b, lift(i)) if i < nb else ZERO) for i in range(max(na, nb))]))
            return args[0]
        return fn
    O['add_inplace'] = acc(ONE)
    O['sub_inplace'] = acc(MONE)
    return O

DV = dv_ops()

def find(I, f, tr, m, args, st):
    # a value of a crate type: its own implementation
    for a in args[:1]:
        try:
            r, x = lastref(st, a)
        except Undecided:
            break
        y = x
        if isinstance(y, StructV) and isinstance(y.tag, str) and y.tag in I.mir.adts:
            b = I.mir.method(y.tag.split('::')[-1], tr, m) or I.mir.method(y.tag.split('::')[-1], tr, m)
            if b:
                return lambda I, st, f, a, fr, t: I.call_body(b, ([r] if r is not None and refish(a[0]) else [a[0]]) + list(a[1:]), st)
            d = I.mir.trait_default(tr, m)
            if d:
                return lambda I, st, f, a, fr, t: I.call_body(d, a, st)
        if isinstance(y, StructV) and y.tag == 'abshall':
            def hs(I, st, f, a, fr, t):
                I.log.append((m, tuple(rd(st, z) for z in a[1:]), st.pc))
                return hall_answer(m, tuple(rd(st, z) for z in a[1:]))
            return hs
    # a provided method for which there is no contract: its body
    d = I.mir.trait_default(tr, m)
    provided = (lambda I, st, f, a, fr, t: I.call_body(d, a, st)) if d else None
    if tr in ('CoefficientField', 'FromDegreeType'):
        return coefficient(m) or provided
    if tr in ('OrderedBasis', 'BasisWithDegree', 'OrderedBasisWithDegree', 'Basis'):
        return provided if provided and m not in BASIS else basis(m)
    O = LIN if I.absvec == 'lin' else DV
    if tr == 'Algebra' and O is DV:
        b = next((b for b in I.mir.roots if b.get('name') == m and (b.get('impl_trait') or '').split('::')[-1] == 'Algebra'), None)
        if b:
            return lambda I, st, f, a, fr, t: I.call_body(b, a, st)
    if m in O:
        return O[m]
    if provided:
        return provided
    def none(I, st, f, args, fr, t):
        raise Undecided('no contract for %s::%s' % (tr, m))
    return none

def hall_answer(m, a):
    """what a Hall set of unknown contents answers"""
    u = lambda x: app('hall-%s-%s' % (m, x), *a, rng=(0, 2**32 - 1))
    if m == 'is_letter':
        v = ('b', 'hall-is-letter') + a
    elif m.endswith('details'):
        v = StructV('tuple', 0, tuple(u(x) for x in ('key', 'lp', 'rp', 'size')))
    elif m == 'degree_range':
        v = StructV('tuple', 0, (u('from'), u('to')))
    else:
        v = UNIT
    return IteV(('b', 'hall-%s-succeeds' % m) + a, StructV(RESULT, 0, (v,)), StructV(RESULT, 1, (Opaque(('hall-error', m) + a),)))
