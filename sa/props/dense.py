"""C05, C06, C21 (dense part): SimpleDenseVector."""
from ..spec import *
from ..contracts import AbsBasis, BlockBasis
from .derived import VEC, INPL, REQUIRED, EXT

class Layout:
    """how SimpleDenseVector stores its coefficients, read off its declaration"""
    def __init__(self, m):
        self.adt = next((a for a in m.adts.values() if a['p'].split('::')[-1] == 'SimpleDenseVector'), None)
        if self.adt is None:
            raise Undecided('SimpleDenseVector is not there')
        fs = self.adt['variants'][0]['f']
        self.nf = len(fs)
        self.kinds = {}
        self.data = None
        for n, f in enumerate(fs):
            t = f['t']
            if t['k'] == 'adt' and t['p'] in m.adts and m.adts[t['p']]['kind'] == 'Enum':
                self.data = n
                self.en = m.adts[t['p']]
                for vn, v in enumerate(self.en['variants']):
                    if len(v['f']) == 1:
                        k = self.kind(v['f'][0]['t'])
                        if k:
                            self.kinds.setdefault(k, vn)
            elif self.kind(t) == 'owned' and self.data is None:
                self.data = n
                self.en = None
                self.kinds = {'owned': None}
        if self.data is None or 'owned' not in self.kinds:
            raise Undecided('the storage of SimpleDenseVector is not recognised')

    def kind(self, t):
        if t['k'] == 'adt' and t['p'].split('::')[-1] == 'Vec':
            return 'owned'
        if t['k'] == 'ref' and t['t']['k'] == 'slice':
            return 'mut' if t.get('mut') else 'shared'
        return None

    def make(self, st, seq, kind, name):
        if kind == 'owned':
            x = seq
        else:
            st.mem[('ext', name)] = seq
            x = RefV(('ext', name))
        d = x if self.en is None else StructV(self.en['p'], self.kinds[kind], (x,))
        return StructV(self.adt['p'], 0, [d if n == self.data else Opaque('PhantomData') for n in range(self.nf)])

    def put(self, st, seq, kind, name):
        st.mem[('in', name)] = self.make(st, seq, kind, name)
        return RefV(('in', name))

    def coeffs(self, st, v):
        """the stored coefficients of a vector value"""
        v = Md.rd(st, v)
        if isinstance(v, IteV):
            return merge(v.c, self.coeffs(st, v.a), self.coeffs(st, v.b))
        if not isinstance(v, StructV) or v.tag != self.adt['p']:
            raise Undecided('a dense vector is expected, got %r' % (v,))
        return self.content(st, v.fields[self.data])

    def content(self, st, d):
        if isinstance(d, IteV):
            return merge(d.c, self.content(st, d.a), self.content(st, d.b))
        if self.en is not None:
            if not isinstance(d, StructV) or d.tag != self.en['p']:
                raise Undecided('storage %r' % (d,))
            d = d.fields[0]
        return Md.rd(st, d)

def seqof(name, n):
    """a sequence of n unknown coefficients"""
    c = n.as_int()
    if c is not None:
        return SeqList([app('el', name, lift(i)) for i in range(c)])
    return SeqAtom(name, n)

def at(seq, i):
    """coefficient i, zero beyond the end"""
    c, n = i.as_int(), seq.len.as_int()
    if c is not None and n is not None:
        return seq.get(i) if c < n else ZERO
    return merge(lt(i, seq.len), LazyGet(seq, i), ZERO)

def build(n, f):
    c = n.as_int()
    if c is not None:
        return SeqList([f(lift(i)) for i in range(c)])
    return SeqFn(n, f)

def methods(m, name):
    return m.method('SimpleDenseVector', 'Vector', name)

PAIRS = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 4), (9, 5), (4, 11), (17, 17), (33, 1), (2, 40)]
ONES = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (9, 0), (17, 0), (40, 0)]

def layout(R):
    try:
        return Layout(R.mir)
    except Undecided as e:
        if 'not there' in str(e):
            R.missing('SimpleDenseVector', 'SimpleDenseVector')
        else:
            x = e
            def no():
                raise x
            R.decide('layout', None, 'the storage of the vector is recognised', no)
        return None

def C05(R):
    L = layout(R)
    if L is not None:
        arithmetic(R, L, list(VEC) + list(INPL))

def arithmetic(R, L, names, prefix=''):
    m = R.mir
    point = {
        'uminus': lambda x, y, s: -x, 'add': lambda x, y, s: x + y, 'sub': lambda x, y, s: x - y,
        'scalar_rmultiply': lambda x, y, s: x * s, 'scalar_lmultiply': lambda x, y, s: x * s,
        'scalar_rdivide': lambda x, y, s: x * inv(s), 'scalar_ldivide': lambda x, y, s: x * inv(s),
    }
    for o in ('add', 'sub'):
        g = ONE if o == 'add' else MONE
        for d in 'rl':
            point['%s_scalar_%smultiply' % (o, d)] = lambda x, y, s, g=g: x + y * s * g
            point['%s_scalar_%sdivide' % (o, d)] = lambda x, y, s, g=g: x + y * inv(s) * g
    for n in names:
        b = methods(m, n)
        own = True
        if b is None:
            if n in REQUIRED and m.trait_default('Vector', n) is None:
                R.missing('SimpleDenseVector::' + n, 'Vector::%s for SimpleDenseVector' % n)
                continue
            b = m.trait_default('Vector', n)
            own = False
            if b is None:
                continue
        kind = (VEC.get(n) or INPL.get(n))[0]
        f = point[n[:-8] if n.endswith('_inplace') else n]
        for ka in L.kinds:
            for kb in (L.kinds if kind in (1, 3) else ['owned']):
                if not own and (ka, kb) not in (('owned', 'owned'), ('shared', 'owned'), ('mut', 'shared')):
                    continue
                for byval in ((False, True) if kind in (1, 3) and kb == 'owned' and own else (False,)):
                    def ob(shape, param, b=b, n=n, kind=kind, f=f, ka=ka, kb=kb, byval=byval):
                        I, st = R.interp(param=param), State()
                        I.basis = AbsBasis()
                        na, nb = (lift(shape[0]), lift(shape[1])) if shape else (var('n', 0, None), var('m', 0, None))
                        sa, sb = seqof('a', na), seqof('b', nb)
                        a = L.put(st, sa, ka, 'a')
                        c = L.put(st, sb, kb, 'b')
                        s = var('s')
                        args = [a]
                        if kind in (1, 3):
                            args.append(st.read(c) if byval else c)
                        if kind in (2, 3):
                            args.append(s)
                        o = run(I, b, args, st)
                        no_panic(o, n)
                        size = na if kind in (0, 2) else pmax(na, nb)
                        w = build(size, lambda i: f(at(sa, i), at(sb, i), s))
                        if n in VEC:
                            same(L.coeffs(st, o.val), w, 'the result of %s' % n, st)
                            same(L.coeffs(st, a), sa, 'the left operand after %s' % n, st)
                        else:
                            same(L.coeffs(st, a), w, 'the target after %s' % n, st)
                            same(o.val, a, 'the reference returned by %s' % n, st)
                        same(L.coeffs(st, c), sb, 'the right operand after %s' % n, st)
                        if ka == 'shared':
                            same(st.mem[('ext', 'a')], sa, 'the borrowed data after %s' % n, st)
                    tiers(R, prefix + '%s [%s, %s%s]' % (n, ka, kb if kind in (1, 3) else '-', ' by value' if byval else ''), b,
                          'every coefficient of the result is the operation on the coefficients, a coefficient beyond the end being zero; length of the longer operand; other data unmodified',
                          ob, PAIRS if kind in (1, 3) else ONES)

# ------------------------------------------------------------------ construction and access
def coefs_are(L, st, v, f, what, extra=(), upto=None):
    """the coefficient of every index is f(index), zero beyond the end"""
    got = L.coeffs(st, v)
    facts = list(extra)
    def one(g):
        if isinstance(g, IteV):
            return merge(g.c, one(g.a), one(g.b))
        return g
    if upto is None and not isinstance(got, IteV) and got.len.as_int() is not None:
        n = got.len.as_int()
        for i in range(n):
            same(gat(got, lift(i)), f(lift(i)), 'coefficient %d of %s' % (i, what), st, facts)
        i = var(fresh('i'), 0, None) + n
        same(ZERO, f(i), 'coefficient %s of %s' % (show(i), what), st, facts)
    elif isinstance(got, IteV) or got.len.as_int() is None or upto is None:
        i = var(fresh('i'), 0, None)
        same(gat(got, i), f(i), 'coefficient %s of %s' % (show(i), what), st, facts)
    else:
        for i in range(max(upto, got.len.as_int()) + 1):
            same(at(got, lift(i)), f(lift(i)), 'coefficient %d of %s' % (i, what), st, facts)

def gat(g, i):
    if isinstance(g, IteV):
        return merge(g.c, gat(g.a, i), gat(g.b, i))
    return at(g, i)

def onehot(i, idx, x, y):
    return merge(eq(i, idx), x, y)

def C06(R):
    m = R.mir
    L = layout(R)
    if L is None:
        return
    I0 = lambda param: R.interp(param=param)
    def vec_op(name, kinds, body, go, shapes, rule, vars=('n', 'kidx')):
        if body is None:
            R.missing('SimpleDenseVector::' + name, name + ' for SimpleDenseVector')
            return
        for ka in kinds:
            def ob(shape, param, ka=ka):
                I, st = I0(param), State()
                I.basis = AbsBasis() if shape is None else BlockBasis()
                n = var('n', 0, None) if shape is None else lift(shape[0])
                sa = seqof('a', n)
                a = L.put(st, sa, ka, 'a') if ka else None
                if shape is None:
                    k = var('k')
                    idx = I.basis.key_to_index(I, st, k)
                    I.basis.dim_for_key(I, st, k)        # the index of a key is below its dimension
                else:
                    k = idx = lift(shape[1])
                st.mem[('in', 'k')] = k
                go(I, st, a, sa, k, idx, shape)
                if ka == 'shared':
                    same(st.mem[('ext', 'a')], sa, 'the borrowed data after %s' % name, st)
            tiers(R, '%s%s' % (name, ' [%s]' % ka if ka else ''), body, rule, ob, shapes, vars)
    ALL = list(L.kinds)
    kref = RefV(('in', 'k'))
    SH = [(0, 0), (0, 2), (1, 0), (1, 2), (3, 0), (3, 2), (3, 4), (4, 1), (7, 5), (12, 11), (12, 12), (20, 7), (5, 40), (33, 32), (63, 62)]
    inh = lambda n: m.inherent('SimpleDenseVector', n)
    me = lambda n, tr='Vector': m.method('SimpleDenseVector', tr, n) or (m.trait_default(tr, n) if tr != 'Clone' else None)

    # ---- construction
    def cons(name, body, mk, rule='the vector has the coefficients given and zero elsewhere'):
        def go(I, st, a, sa, k, idx, shape):
            args, f, size = mk(I, st, k, idx)
            o = run(I, body, args, st)
            no_panic(o, name)
            coefs_are(L, st, o.val, f, 'the result of ' + name)
            if size is not None:
                same(seq_len(L.coeffs(st, o.val)), size, 'the length of the result of ' + name, st)
        vec_op(name, [None], body, go, SH, rule)
    cons('Vector::new', me('new'), lambda I, st, k, idx: ([], lambda i: ZERO, ZERO))
    if inh('new'):
        cons('new', inh('new'), lambda I, st, k, idx: ([], lambda i: ZERO, ZERO))
    if inh('from'):
        cons('from', inh('from'), lambda I, st, k, idx: ([seqof('v', var('n', 0, None))], lambda i: at(seqof('v', var('n', 0, None)), i), var('n', 0, None)))
    if inh('from_dimension'):
        cons('from_dimension', inh('from_dimension'), lambda I, st, k, idx: ([var('n', 0, None)], lambda i: ZERO, var('n', 0, None)))
    cons('from_key', me('from_key'), lambda I, st, k, idx: ([k], lambda i: onehot(i, idx, ONE, ZERO), None))
    cons('from_key_scalar', me('from_key_scalar'), lambda I, st, k, idx: ([k, var('s')], lambda i: onehot(i, idx, var('s'), ZERO), None))
    # sequences of pairs
    b = me('from_iterator')
    if b is None:
        R.missing('SimpleDenseVector::from_iterator', 'from_iterator for SimpleDenseVector')
    else:
        import itertools
        seqs = [()]
        for n in (1, 2, 3):
            seqs += list(itertools.product((0, 1, 2, 4), repeat=n))
        seqs += [(4, 0, 2, 0, 4), (1, 1, 1, 1), (6, 3, 5, 3), (5, 1, 6, 2, 0, 4, 3, 3), tuple(range(17)), tuple(i * 7 % 5 for i in range(12)), tuple(i * 11 % 20 for i in range(40)), (30,) * 9, (62, 0, 61), tuple(range(33))[::-1]]
        def it():
            for ks in widened(R, seqs, lists_around):
                I, st = I0(False), State()
                I.basis = BlockBasis()
                items = SeqList([tup(lift(k), var('s%d' % j)) for j, k in enumerate(ks)])
                o = run(I, b, [items], st)
                no_panic(o, 'from_iterator with keys %s' % (ks,))
                def f(i):
                    r = ZERO
                    for j, k in enumerate(ks):
                        if i.as_int() == k:
                            r = r + var('s%d' % j)
                    return r
                coefs_are(L, st, o.val, f, 'from_iterator with keys %s' % (ks,), upto=max(ks + (8,)) + 1)
            return 'bounded'
        R.decide('from_iterator', b, 'the coefficient of every key is the sum of the scalars given for it (key sequences listed, scalars arbitrary)', it, shapes=len(seqs))
    # ---- access
    def get(write):
        def go(I, st, a, sa, k, idx, shape):
            for arg in (kref, k):
                s = st.copy()
                o = run(I, me('get_mut' if write else 'get'), [a, arg], s)
                no_panic(o, 'get')
                inside = lt(idx, sa.len)
                for case in (True, False):
                    s2 = s.copy()
                    if not s2.assume(inside, case):
                        continue
                    def plain(v, st2):
                        if isinstance(v, IteV):
                            d = st2.decide(v.c)
                            if isinstance(d, bool):
                                return plain(v.a if d else v.b, st2)
                            raise Undecided('gated option')
                        return v
                    v = plain(o.val, s2)
                    if not (isinstance(v, StructV) and v.tag == OPTION):
                        raise Undecided('option expected')
                    if v.variant != (1 if case else 0):
                        feasible(facts_of(s2), 'reading a key %s the vector gives %s' % ('of' if case else 'beyond the end of', 'none' if case else 'a coefficient'))
                        continue
                    if case:
                        same(s2.read(v.fields[0]), sa.get(idx), 'the coefficient read', s2)
                        if write:
                            s2.write(v.fields[0], var('w'))
                            coefs_are(L, s2, a, lambda i: onehot(i, idx, var('w'), at(sa, i)), 'the vector after writing through get_mut')
                            same(seq_len(L.coeffs(s2, a)), sa.len, 'the length', s2)
                coefs_are(L, s, a, lambda i: at(sa, i), 'the vector after get')
        return go
    vec_op('get', ALL, me('get'), get(False), SH, 'the coefficient of the key, or none beyond the end')
    vec_op('get_mut', ALL, me('get_mut'), get(True), SH, 'a reference to the coefficient of the key, or none beyond the end')
    def ins(I, st, a, sa, k, idx, shape):
        o = run(I, me('insert_single'), [a, kref, var('s')], st)
        no_panic(o, 'insert_single')
        coefs_are(L, st, a, lambda i: onehot(i, idx, var('s'), at(sa, i)), 'the vector after insert_single')
    vec_op('insert_single', ALL, me('insert_single'), ins, SH, 'the coefficient of the key becomes the value, growing the vector where needed; no other changes')
    def era(I, st, a, sa, k, idx, shape):
        for arg in (kref, k):
            s = st.copy()
            o = run(I, me('erase'), [a, arg], s)
            no_panic(o, 'erase')
            coefs_are(L, s, a, lambda i: onehot(i, idx, ZERO, at(sa, i)), 'the vector after erase')
    vec_op('erase', ALL, me('erase'), era, SH, 'the coefficient of the key becomes zero; no other changes')
    b = me('insert')
    if b is None:
        R.missing('SimpleDenseVector::insert', 'insert for SimpleDenseVector')
    else:
        for ka in ALL:
            def many(ka=ka):
                for n, ks in widened(R, ((0, ()), (0, (2,)), (1, (0, 2)), (3, (2, 0)), (3, (4, 1, 4)), (2, (1, 1)), (7, (3, 9, 12, 0, 3, 20, 9, 1)), (0, tuple(range(20))), (20, tuple(i * 7 % 23 for i in range(30)))), lambda c: [(n, l) for l in lists_around(c) for n in (0, 2)] + [(c + 2, (0, 5)), (c - 1, (c, 1, c))]):
                    I, st = I0(False), State()
                    I.basis = BlockBasis()
                    sa = seqof('a', lift(n))
                    a = L.put(st, sa, ka, 'a')
                    o = run(I, b, [a, SeqList([tup(lift(k), var('s%d' % j)) for j, k in enumerate(ks)])], st)
                    no_panic(o, 'insert')
                    def f(i):
                        r = at(sa, i)
                        for j, k in enumerate(ks):
                            if i.as_int() == k:
                                r = var('s%d' % j)
                        return r
                    coefs_are(L, st, a, f, 'the vector after insert of keys %s' % (ks,), upto=max((31, n) + ks) + 1)
                    if ka == 'shared':
                        same(st.mem[('ext', 'a')], sa, 'the borrowed data after insert', st)
                return 'bounded'
            R.decide('insert [%s]' % ka, b, 'each key given gets the (last) value given for it; no other changes', many)
    def clr(I, st, a, sa, k, idx, shape):
        o = run(I, me('clear'), [a], st)
        no_panic(o, 'clear')
        coefs_are(L, st, a, lambda i: ZERO, 'the vector after clear')
    vec_op('clear', ALL, me('clear'), clr, SH, 'every coefficient is zero')
    def own(name, body):
        def go(I, st, a, sa, k, idx, shape):
            o = run(I, body, [a], st)
            no_panic(o, name)
            same(L.coeffs(st, o.val), sa, 'the copy made by ' + name, st)
            same(L.coeffs(st, a), sa, 'the original after ' + name, st)
        return go
    vec_op('to_owned', ALL, me('to_owned'), own('to_owned', me('to_owned')), SH, 'the copy has the same coefficients; the original is unchanged')
    if me('clone', 'Clone'):
        vec_op('clone', ALL, me('clone', 'Clone'), own('clone', me('clone', 'Clone')), SH, 'the copy has the same coefficients; the original is unchanged')
    if inh('size'):
        def size(I, st, a, sa, k, idx, shape):
            o = run(I, inh('size'), [a], st)
            no_panic(o, 'size')
            same(o.val, sa.len, 'size', st)
        vec_op('size', ALL, inh('size'), size, SH, 'the number of coefficients stored')
    b = me('resize', 'ResizeableDenseVector')
    def rez(I, st, a, sa, k, idx, shape):
        d = var('d', 0, None) if shape is None else lift(shape[1])
        o = run(I, b, [a, d], st)
        no_panic(o, 'resize')
        same(seq_len(L.coeffs(st, a)), d, 'the length after resize', st)
        got = L.coeffs(st, a)
        if shape is not None and not isinstance(got, IteV) and got.len.as_int() is not None:
            for i in range(shape[1]):
                same(gat(got, lift(i)), at(sa, lift(i)) if i < shape[0] else ZERO, 'coefficient %d after resize' % i, st)
            return
        i = var(fresh('i'), 0, None)
        same(gat(got, i), merge(lt(i, d), at(sa, i), ZERO), 'coefficient %s after resize' % show(i), st)
    vec_op('resize', ALL, b, rez, SH + [(4, 0), (5, 3)], 'the length becomes the dimension; coefficients that stay are unchanged and new ones are zero', vars=('n', 'd'))
    for nm, w in (('as_slice', False), ('as_mut_slice', True)):
        for body, lab in ((me(nm, 'DenseVector'), 'DenseVector::' + nm), (inh(nm), nm)):
            if body is None:
                if lab != nm:
                    R.missing(lab, lab)
                continue
            def sl(I, st, a, sa, k, idx, shape, body=body, w=w, lab=lab):
                o = run(I, body, [a], st)
                no_panic(o, lab)
                same(Md.rd(st, o.val), sa, 'the slice returned by ' + lab, st)
                if w:
                    # the slice is the vector's own data: a write through it is seen
                    s2 = st.copy()
                    if s2.assume(lt(idx, sa.len)):
                        r, _ = Md.lastref(s2, o.val)
                        s2.write(Md.ext(r, ('ix', idx)), var('w'))
                        coefs_are(L, s2, a, lambda i: onehot(i, idx, var('w'), at(sa, i)), 'the vector after writing through ' + lab)
                same(L.coeffs(st, a), sa, 'the vector after ' + lab, st)
            vec_op(lab, ALL, body, sl, SH, 'the slice is all the coefficients, in order')
    for nm in ('get_slice', 'get_mut_slice'):
        body = me(nm, 'DenseVector') or m.trait_default('DenseVector', nm)
        if body is None:
            continue
        def gs(I, st, a, sa, k, idx, shape, body=body, nm=nm):
            rng = StructV('core::ops::range::Range', 0, (lift(1), lift(3)))
            o = run(I, body, [a, rng], st)
            no_panic(o, nm)
            inside = leq(3, sa.len)
            for case in (True, False):
                s2 = st.copy()
                if not s2.assume(inside, case):
                    continue
                v = o.val
                while isinstance(v, IteV):
                    d = s2.decide(v.c)
                    if not isinstance(d, bool):
                        raise Undecided('gated option')
                    v = v.a if d else v.b
                if v.variant != (1 if case else 0):
                    feasible(facts_of(s2), '%s of 1..3 is %r' % (nm, v))
                    continue
                if case:
                    x = Md.rd(s2, v.fields[0])
                    for j in (0, 1):
                        same(seq_get(x, lift(j)), sa.get(lift(j + 1)), '%s of 1..3 at %d' % (nm, j), s2)
        vec_op(nm, ALL, body, gs, SH, 'the part of the coefficients asked for, or none if it is not all there')
    b = me('swap')
    if b is None:
        R.missing('SimpleDenseVector::swap', 'swap')
    else:
        for ka in ALL:
            for kb in ALL:
                def sw(ka=ka, kb=kb):
                    I, st = I0(True), State()
                    I.basis = AbsBasis()
                    sa, sb = seqof('a', var('n', 0, None)), seqof('b', var('m', 0, None))
                    a, c = L.put(st, sa, ka, 'a'), L.put(st, sb, kb, 'b')
                    o = run(I, b, [a, c], st)
                    no_panic(o, 'swap')
                    same(L.coeffs(st, a), sb, 'the target after swap', st)
                    same(L.coeffs(st, c), sa, 'the operand after swap', st)
                R.decide('swap [%s, %s]' % (ka, kb), b, 'the vectors exchange their coefficients', sw)

def owns(x, what):
    """owns its data: holds no reference"""
    if isinstance(x, RefV):
        raise Mismatch('%s refers to data it does not own' % what)
    if isinstance(x, StructV):
        for y in x.fields:
            owns(y, what)
    if isinstance(x, IteV):
        owns(x.a, what)
        owns(x.b, what)

def C21d(R):
    m = R.mir
    L = layout(R)
    if L is None:
        return
    if m.method('SimpleDenseVector', 'PartialEq', 'eq') is None:
        R.missing('SimpleDenseVector::eq', 'PartialEq for SimpleDenseVector')
    for nm in ('eq', 'ne'):
        b = m.method('SimpleDenseVector', 'PartialEq', nm)
        if b is None:
            continue
        for ka in L.kinds:
            for kb in L.kinds:
                def ob(ka=ka, kb=kb, b=b, nm=nm):
                    for na, nb in widened(R, PAIRS, pairs_around):
                        I, st = R.interp(), State()
                        I.basis = AbsBasis()
                        sa, sb = seqof('a', lift(na)), seqof('b', lift(nb))
                        a, c = L.put(st, sa, ka, 'a'), L.put(st, sb, kb, 'b')
                        o = run(I, b, [a, c], st)
                        no_panic(o, 'eq')
                        w = na == nb and conj(*[eq(sa.get(lift(i)), sb.get(lift(i))) for i in range(na)])
                        same(o.val, w if nm == 'eq' else neg(w), '%s of vectors of lengths %d and %d' % ('equality' if nm == 'eq' else 'inequality', na, nb), st)
                        same(L.coeffs(st, a), sa, 'the left operand after eq', st)
                        same(L.coeffs(st, c), sb, 'the right operand after eq', st)
                    return 'bounded'
                R.decide('dense %s [%s, %s]' % (nm, ka, kb), b, 'equal exactly when the stored coefficients are', ob, shapes=len(PAIRS))
    for tr, nm in (('Clone', 'clone'), ('Vector', 'to_owned')):
        b = m.method('SimpleDenseVector', tr, nm)
        if b is None:
            R.missing('SimpleDenseVector::' + nm, nm)
            continue
        for ka in L.kinds:
            def ob(b=b, nm=nm, ka=ka):
                I, st = R.interp(param=True), State()
                sa = seqof('a', var('n', 0, None))
                a = L.put(st, sa, ka, 'a')
                o = run(I, b, [a], st)
                no_panic(o, nm)
                v = Md.rd(st, o.val)
                same(L.coeffs(st, v), sa, 'the copy', st)
                owns(v, 'the result of %s of a vector that is %s' % (nm, ka))
            R.decide('%s owns [%s]' % (nm, ka), b, 'the copy has equal coefficients and holds no reference to the data of the original', ob)
    b = m.method('SimpleDenseVector', 'Clone', 'clone_from')
    if b is not None:
        for ka in L.kinds:
            for kb in L.kinds:
                def ob(shape, param, ka=ka, kb=kb):
                    I, st = R.interp(param=param), State()
                    I.basis = AbsBasis()
                    na, nb = (lift(shape[0]), lift(shape[1])) if shape else (var('n', 0, None), var('m', 0, None))
                    sa, sb = seqof('a', na), seqof('b', nb)
                    a, c = L.put(st, sa, ka, 'a'), L.put(st, sb, kb, 'b')
                    o = run(I, b, [a, c], st)
                    no_panic(o, 'clone_from')
                    same(L.coeffs(st, a), sb, 'the vector copied into', st)
                    same(L.coeffs(st, c), sb, 'the vector copied from', st)
                    owns(st.read(a), 'a vector that was %s, copied into,' % ka)
                tiers(R, 'clone_from [%s, %s]' % (ka, kb), b, 'the copy has equal coefficients and holds no reference to the data of the original', ob, PAIRS)
