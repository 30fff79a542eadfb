"""C07, C08, C21 (sparse part): SimpleSparseVector."""
import itertools
from ..spec import *
from ..contracts import AbsBasis
from .derived import VEC, INPL, REQUIRED

class Layout:
    def __init__(self, m):
        self.adt = next((a for a in m.adts.values() if a['p'].split('::')[-1] == 'SimpleSparseVector'), None)
        if self.adt is None:
            raise Undecided('SimpleSparseVector is not there')
        fs = self.adt['variants'][0]['f']
        self.nf = len(fs)
        d = [n for n, f in enumerate(fs) if f['t']['k'] == 'adt' and f['t']['p'].split('::')[-1] in ('HashMap', 'BTreeMap')]
        if len(d) != 1:
            raise Undecided('the storage of SimpleSparseVector is not recognised')
        self.data = d[0]

    def make(self, mp):
        return StructV(self.adt['p'], 0, [mp if n == self.data else Opaque('PhantomData') for n in range(self.nf)])

    def put(self, st, mp, name):
        st.mem[('in', name)] = self.make(mp)
        return RefV(('in', name))

    def map(self, st, v):
        v = Md.rd(st, v)
        if isinstance(v, IteV):
            return merge(v.c, self.map(st, v.a), self.map(st, v.b))
        if not isinstance(v, StructV) or v.tag != self.adt['p']:
            raise Undecided('a sparse vector is expected, got %r' % (v,))
        return v.fields[self.data]

def layout(R):
    try:
        return Layout(R.mir)
    except Undecided as e:
        if 'not there' in str(e):
            R.missing('SimpleSparseVector', 'SimpleSparseVector')
        else:
            x = e
            def no():
                raise x
            R.decide('layout', None, 'the storage of the vector is recognised', no)
        return None

def mpres(m, k):
    if isinstance(m, IteV):
        return cite(m.c, mpres(m.a, k), mpres(m.b, k))
    return m.pres(k)

def mcoef(m, k):
    """coefficient of a key, zero if it is not stored"""
    if isinstance(m, IteV):
        return merge(m.c, mcoef(m.a, k), mcoef(m.b, k))
    p = m.pres(k)
    if p is False:
        return ZERO
    v = m.val(k)
    if v is UNDEF:
        if p is not True:
            raise Undecided('value of an entry')
        raise Mismatch('an entry has no value')
    return merge(p, v, ZERO)

def mkmap(name, keys):
    return MapDict([(lift(k), True, app('mval', name, lift(k))) for k in keys])

KEYSETS = [((), ()), ((), (1,)), ((1,), ()), ((1,), (1,)), ((1, 2), (2,)), ((1,), (1, 2)), ((1, 2), (1, 2)), ((1, 2, 3), (2, 3, 4)), ((3, 1), (1, 3, 2)),
           (tuple(range(1, 7)), (4, 9)), ((2, 9), tuple(range(1, 7))), (tuple(range(1, 11)), tuple(range(5, 15))), (tuple(range(20)), tuple(range(18, 40))), (tuple(range(33)), (40,)), ((3,), tuple(range(33)))]
ONESETS = [((), ()), ((1,), ()), ((2, 1), ()), ((1, 2, 3), ()), (tuple(range(8)), ()), (tuple(range(17)), ()), (tuple(range(40)), ())]

def sets_around(c, two):
    r = range
    if not two:
        return [(tuple(r(x)), ()) for x in (c, c + 1, 2 * c + 1)]
    return [(tuple(r(c)), tuple(r(c - 2, 2 * c - 2))), (tuple(r(c + 1)), tuple(r(1, c + 2))), (tuple(r(c + 1)), (c, 3 * c)), ((2, 3 * c), tuple(r(c + 1))), (tuple(r(2 * c + 1)), tuple(r(2 * c + 1)))]

def tiers_map(R, name, b, rule, fn, shapes):
    def ob():
        try:
            fn(None, True, False)
            return 'proved'
        except (Mismatch, Undecided) as e:
            R.notes.append('%s: parametric: %s' % (name, e))
        R.restart()
        each_shape([(s, rev) for s in shapes for rev in (False, True)], lambda x: fn(x[0], False, x[1]), R,
                   lambda c: [(s, False) for s in sets_around(c, any(y for _, y in shapes))])
        return 'bounded'
    return R.decide(name, b, rule, ob, shapes=len(shapes))

POINT = {'uminus': lambda x, y, s: -x, 'add': lambda x, y, s: x + y, 'sub': lambda x, y, s: x - y,
         'scalar_rmultiply': lambda x, y, s: x * s, 'scalar_lmultiply': lambda x, y, s: x * s,
         'scalar_rdivide': lambda x, y, s: x * inv(s), 'scalar_ldivide': lambda x, y, s: x * inv(s)}
for _o in ('add', 'sub'):
    _g = ONE if _o == 'add' else MONE
    for _d in 'rl':
        POINT['%s_scalar_%smultiply' % (_o, _d)] = lambda x, y, s, g=_g: x + y * s * g
        POINT['%s_scalar_%sdivide' % (_o, _d)] = lambda x, y, s, g=_g: x + y * inv(s) * g

def C07(R):
    L = layout(R)
    if L is not None:
        arithmetic(R, L, list(VEC) + list(INPL))

def arithmetic(R, L, names, prefix=''):
    m = R.mir
    for n in names:
        b = m.method('SimpleSparseVector', 'Vector', n)
        own = b is not None
        if b is None:
            if n in REQUIRED and m.trait_default('Vector', n) is None:
                R.missing('SimpleSparseVector::' + n, 'Vector::%s for SimpleSparseVector' % n)
                continue
            b = m.trait_default('Vector', n)
            if b is None:
                continue
        kind = (VEC.get(n) or INPL.get(n))[0]
        f = POINT[n[:-8] if n.endswith('_inplace') else n]
        for byval in ((False, True) if kind in (1, 3) and own else (False,)):
            def ob1(shape, param, rev, sz, b=b, n=n, kind=kind, f=f, byval=byval):
                I, st = R.interp(param=param), State()
                I.basis = AbsBasis()
                I.reverse_maps = rev
                ma, mb = (mkmap('a', shape[0]), mkmap('b', shape[1])) if shape else (MapAtom('a'), MapAtom('b'))
                a, c = L.put(st, ma, 'a'), L.put(st, mb, 'b')
                s = var('s')
                if sz is True:
                    s = ZERO
                elif sz is False and not st.assume(eq(s), False):
                    return
                args = [a]
                if kind in (1, 3):
                    args.append(L.make(mb) if byval else c)
                if kind in (2, 3):
                    args.append(s)
                o = run(I, b, args, st)
                no_panic(o, n)
                tgt = o.val if n in VEC else a
                got = L.map(st, tgt)
                ks = [lift(k) for k in sorted(set(shape[0]) | set(shape[1]) | {9})] if shape else [var(fresh('q'))]
                for q in ks:
                    x, y = mcoef(ma, q), mcoef(mb, q)
                    same(mcoef(got, q), f(x, y, s), 'the coefficient of key %s after %s' % (show(q), n), st)
                    # cancelled coefficients are not stored; nothing is stored for a key of neither operand
                    pa, pb = ma.pres(q), mb.pres(q) if kind in (1, 3) else False
                    if kind == 1 or (kind == 3 and sz is False):
                        both = conj(pa, pb)
                        if both is not False:
                            same(mpres(got, q), neg(eq(f(ma.val(q), mb.val(q), s), ZERO)), 'whether key %s, stored in both operands, is stored after %s' % (show(q), n), st, [(both, True)])
                    if kind == 2 and 'multiply' in n:
                        same(mpres(got, q), False, 'whether key %s is stored after %s by zero' % (show(q), n), st, [(eq(s), True)])
                    neither = conj(neg(pa), neg(pb))
                    if neither is not False:
                        same(mpres(got, q), False, 'whether key %s, stored in no operand, is stored after %s' % (show(q), n), st, [(neither, True)])
                    same(mpres(L.map(st, c), q), mb.pres(q), 'the keys of the right operand after %s' % n, st)
                    same(mcoef(L.map(st, c), q), y, 'the right operand after %s' % n, st)
                    if n in VEC:
                        same(mcoef(L.map(st, a), q), x, 'the left operand after %s' % n, st)
                if n not in VEC:
                    same(o.val, a, 'the reference returned by %s' % n, st)
            def ob(shape, param, rev, split=(kind == 3), ob1=ob1, mul='multiply' in n):
                for sz in ((False, True) if split and mul else (False,) if split else (None,)):
                    ob1(shape, param, rev, sz)
            tiers_map(R, prefix + '%s%s' % (n, ' (operand by value)' if byval else ''), b,
                      'the coefficient of every key is the operation on the two coefficients; cancelled coefficients and multiples by zero are not stored; right operand unmodified',
                      ob, KEYSETS if kind in (1, 3) else ONESETS)

def C08(R):
    m = R.mir
    L = layout(R)
    if L is None:
        return
    me = lambda n, tr='Vector': m.method('SimpleSparseVector', tr, n) or (m.trait_default(tr, n) if tr != 'Clone' else None)
    k, q = var('k'), var('q')
    def start(param=True):
        I, st = R.interp(param=param), State()
        I.basis = AbsBasis()
        st.mem[('in', 'k')] = k
        return I, st
    A = MapAtom('a')
    def simple(name, args, pres, coef, rule, target=False, byval=None):
        b = me(name)
        if b is None:
            R.missing('SimpleSparseVector::' + name, name)
            return
        def ob():
            I, st = start()
            a = L.put(st, A, 'a')
            o = run(I, b, ([a] if target else []) + args, st)
            no_panic(o, name)
            got = L.map(st, a if target else o.val)
            same(mcoef(got, q), coef, 'the coefficient of a key after %s' % name, st)
            same(mpres(got, q), pres, 'whether a key is stored after %s' % name, st)
            if not target:
                same(L.map(st, a), A, 'another vector', st)
        R.decide(name + (byval or ''), b, rule, ob)
    kref = RefV(('in', 'k'))
    isk = eq(q, k)
    simple('new', [], False, ZERO, 'nothing is stored')
    simple('from_key', [k], isk, ite(isk, ONE, ZERO), 'one at the key, zero elsewhere')
    simple('from_key_scalar', [k, var('s')], isk, ite(isk, var('s'), ZERO), 'the scalar at the key, zero elsewhere')
    simple('clear', [], False, ZERO, 'nothing is stored', True)
    simple('insert_single', [kref, var('s')], disj(isk, A.pres(q)), ite(isk, var('s'), mcoef(A, q)), 'the coefficient of the key becomes the value; no other changes', True)
    for arg, lab in ((kref, ''), (k, ' (key by value)')):
        simple('erase', [arg], conj(neg(isk), A.pres(q)), ite(isk, ZERO, mcoef(A, q)), 'the key is no longer stored; no other changes', True, lab)
    b = me('to_owned')
    if b is None:
        R.missing('SimpleSparseVector::to_owned', 'to_owned')
    else:
        def ob():
            I, st = start()
            a = L.put(st, A, 'a')
            o = run(I, b, [a], st)
            no_panic(o, 'to_owned')
            for v, w in ((o.val, 'the copy'), (a, 'the original')):
                same(mcoef(L.map(st, v), q), mcoef(A, q), w, st)
                same(mpres(L.map(st, v), q), A.pres(q), 'the keys of ' + w, st)
        R.decide('to_owned', b, 'the copy stores the same coefficients; the original is unchanged', ob)
    b = me('swap')
    if b is None:
        R.missing('SimpleSparseVector::swap', 'swap')
    else:
        def ob():
            I, st = start()
            B = MapAtom('b')
            a, c = L.put(st, A, 'a'), L.put(st, B, 'b')
            o = run(I, b, [a, c], st)
            no_panic(o, 'swap')
            for v, w in ((a, B), (c, A)):
                same(mcoef(L.map(st, v), q), mcoef(w, q), 'the exchanged vector', st)
                same(mpres(L.map(st, v), q), w.pres(q), 'the keys of the exchanged vector', st)
        R.decide('swap', b, 'the vectors exchange their coefficients', ob)
    for nm in ('get', 'get_mut'):
        b = me(nm)
        if b is None:
            R.missing('SimpleSparseVector::' + nm, nm)
            continue
        for arg, lab in ((kref, ''), (k, ' (key by value)')):
            def ob(b=b, nm=nm, arg=arg):
                I, st = start()
                a = L.put(st, A, 'a')
                o = run(I, b, [a, arg], st)
                no_panic(o, nm)
                for case in (True, False):
                    s2 = st.copy()
                    if not s2.assume(A.pres(k), case):
                        continue
                    v = o.val
                    while isinstance(v, IteV):
                        d = s2.decide(v.c)
                        if not isinstance(d, bool):
                            raise Undecided('gated option')
                        v = v.a if d else v.b
                    if not (isinstance(v, StructV) and v.tag == OPTION):
                        raise Undecided('option expected')
                    if v.variant != (1 if case else 0):
                        feasible(facts_of(s2), 'reading a key that is %sstored gives %r' % ('' if case else 'not ', v))
                        continue
                    if case:
                        same(s2.read(v.fields[0]), A.val(k), 'the coefficient read', s2)
                        if nm == 'get_mut':
                            s2.write(v.fields[0], var('w'))
                            same(mcoef(L.map(s2, a), q), ite(isk, var('w'), mcoef(A, q)), 'the vector after writing through get_mut', s2)
                same(mcoef(L.map(st, a), q), mcoef(A, q), 'the vector after %s' % nm, st)
                same(mpres(L.map(st, a), q), A.pres(q), 'the keys after %s' % nm, st)
            R.decide(nm + lab, b, 'the coefficient of the key, or none if it is not stored', ob)
    seqs = [()]
    for n in (1, 2, 3):
        seqs += list(itertools.product((1, 2, 5), repeat=n))
    seqs += [(2, 1, 2, 1, 2), (5, 1, 7, 2, 9, 4, 3, 8), tuple(range(17)), tuple(i * 7 % 5 for i in range(12)), tuple(i * 11 % 20 for i in range(40))]
    b = me('from_iterator')
    if b is None:
        R.missing('SimpleSparseVector::from_iterator', 'from_iterator')
    else:
        def ob():
            for ks in widened(R, seqs, lists_around):
                I, st = start(False)
                o = run(I, b, [SeqList([tup(lift(x), var('s%d' % j)) for j, x in enumerate(ks)])], st)
                no_panic(o, 'from_iterator')
                got = L.map(st, o.val)
                for x in sorted({1, 2, 5, 7, 99} | set(ks)):
                    w = ZERO
                    for j, y in enumerate(ks):
                        if x == y:
                            w = w + var('s%d' % j)
                    same(mcoef(got, lift(x)), w, 'the coefficient of key %d built from keys %s' % (x, ks), st)
            return 'bounded'
        R.decide('from_iterator', b, 'the coefficient of every key is the sum of the scalars given for it (key sequences listed, scalars arbitrary)', ob, shapes=len(seqs))
    b = me('insert')
    if b is None:
        R.missing('SimpleSparseVector::insert', 'insert')
    else:
        def ob():
            olds = ((), (1,), (1, 2), (5, 7), tuple(range(12)))
            for ks, old in widened(R, [(ks, old) for ks in seqs[:13] + seqs[-5:] for old in olds],
                                   lambda c: [(l, o) for l in lists_around(c) for o in ((), (1, 2))] + [((1, c, c + 3), tuple(range(c + 1)))]):
                if True:
                    I, st = start(False)
                    ma = mkmap('a', old)
                    a = L.put(st, ma, 'a')
                    o = run(I, b, [a, SeqList([tup(lift(x), var('s%d' % j)) for j, x in enumerate(ks)])], st)
                    no_panic(o, 'insert')
                    got = L.map(st, a)
                    for x in sorted({1, 2, 5, 7, 99} | set(ks)):
                        w = mcoef(ma, lift(x))
                        for j, y in enumerate(ks):
                            if x == y:
                                w = var('s%d' % j)
                        same(mcoef(got, lift(x)), w, 'the coefficient of key %d after inserting keys %s' % (x, ks), st)
            return 'bounded'
        R.decide('insert', b, 'each key given gets the (last) value given for it; no other changes', ob, shapes=18 * 5)
    # iteration
    b = next((x for x in m.roots if x.get('name') == 'into_iter' and x.get('impl_self') and tyname(x['impl_self']) == '&SimpleSparseVector'), None)
    if b is None:
        R.missing('&SimpleSparseVector::into_iter', 'iteration over a sparse vector')
    else:
        def ob():
            for ks in widened(R, ((), (1,), (2, 1), (1, 2, 3), tuple(range(20))), lambda c: [tuple(range(c)), tuple(range(c + 1)), tuple(range(2 * c + 1))]):
                I, st = start(False)
                ma = mkmap('a', ks)
                a = L.put(st, ma, 'a')
                o = run(I, b, [a], st)
                no_panic(o, 'into_iter')
                seen = []
                Md.each(I, st, Md.to_iter(I, st, o.val), lambda s, x: seen.append((Md.rd(s, x.fields[0]), Md.rd(s, x.fields[1]))))
                for x in ks:
                    hits = [v for kk, v in seen if kk == lift(x)]
                    if len(hits) != 1:
                        raise Mismatch('iterating over a vector with keys %s yields key %d %d times' % (ks, x, len(hits)))
                    same(hits[0], ma.val(lift(x)), 'the coefficient yielded for key %d' % x, st)
                if len(seen) != len(ks):
                    raise Mismatch('iterating over a vector with keys %s yields %d items' % (ks, len(seen)))
                same(L.map(st, a), ma, 'the vector after iterating', st)
            return 'bounded'
        R.decide('iteration', b, 'every stored key is yielded once with its coefficient', ob)
    for nm, i in (('key', 0), ('value', 1)):
        for b in [x for x in m.roots if x.get('name') == nm and (x.get('impl_trait') or '').split('::')[-1] == 'VectorIteratorItem' and (x.get('impl_self') or {}).get('k') == 'tuple']:
            def ob(b=b, i=i):
                I, st = start()
                st.mem[('in', 'v')] = var('v')
                st.mem[('in', 'it')] = tup(kref, RefV(('in', 'v')))
                o = run(I, b, [RefV(('in', 'it'))], st)
                no_panic(o, 'item')
                same(Md.rd(st, o.val), var('v') if i else k, 'the %s of an item' % ('value' if i else 'key'), st)
            R.decide('item ' + nm, b, 'the key and value of an item are those of the entry', ob)

def C21s(R):
    m = R.mir
    L = layout(R)
    if L is None:
        return
    b = m.method('SimpleSparseVector', 'PartialEq', 'eq')
    if b is None:
        R.missing('SimpleSparseVector::eq', 'PartialEq for SimpleSparseVector')
        return
    def ob(b=b, ne=False):
        for ka, kb in widened(R, KEYSETS + [((2, 1), (1, 2)), ((1, 2), (1, 3)), ((1, 2, 3), (3, 1, 2))], lambda c: sets_around(c, True) + [(tuple(range(c)),) * 2, (tuple(range(c + 1)),) * 2, (tuple(range(c + 1)), tuple(range(1, c + 2)))]):
            for rev in (False, True):
                I, st = R.interp(), State()
                I.reverse_maps = rev
                ma, mb = mkmap('a', ka), mkmap('b', kb)
                a, c = L.put(st, ma, 'a'), L.put(st, mb, 'b')
                o = run(I, b, [a, c], st)
                no_panic(o, 'eq')
                w = set(ka) == set(kb) and conj(*[eq(ma.val(lift(x)), mb.val(lift(x))) for x in sorted(ka)])
                same(o.val, neg(w) if ne else w, 'equality of vectors with keys %s and %s' % (ka, kb), st)
                same(L.map(st, a), ma, 'the left operand after eq', st)
                same(L.map(st, c), mb, 'the right operand after eq', st)
        return 'bounded'
    R.decide('sparse eq', b, 'equal exactly when the same keys are stored with equal coefficients', ob, shapes=len(KEYSETS) + 3)
    b2 = m.method('SimpleSparseVector', 'PartialEq', 'ne')
    if b2 is not None:
        R.decide('sparse ne', b2, 'unequal exactly when not equal', lambda: ob(b2, True), shapes=len(KEYSETS) + 3)
