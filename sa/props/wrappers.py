"""C09: a type that dereferences to a vector."""
from ..spec import *
from ..contracts import sided
from .derived import VEC, INPL, REQUIRED

def wrap(x):
    return StructV('wrap', 0, (x,))

def win(st, n):
    st.mem[('in', n)] = wrap(lin_atom(n))
    return RefV(('in', n))

def key(st, byval):
    st.mem[('in', 'k')] = var('k')
    return var('k') if byval else RefV(('in', 'k'))

A, B = lin_atom('a'), lin_atom('b')

LISTS = [(), (1,), (1, 2), (2, 1), (1, 1), (3, 1, 2), (1, 2, 1), (2, 2, 2, 1), (0, 1, 2, 3, 4, 5), (4, 4, 0, 2, 0, 7, 1, 9, 8, 3)]

def items(ks):
    return SeqList([tup(lift(k), var('s%d' % j)) for j, k in enumerate(ks)])

def side_of(n):
    for side in 'rl':
        if 'scalar_' + side in n:
            return side
    return None

def C09(R):
    m = R.mir
    bodies = {}
    for b in m.roots:
        s = b.get('impl_self')
        if s and (b.get('impl_trait') or '').split('::')[-1] == 'Vector' and s.get('k') == 'param':
            bodies[b['name']] = b
    if not bodies:
        # the blanket implementation may have become one implementation per wrapper
        if not any(tyname(i['self']) == 'DenseTensor' and (i.get('trait') or '').split('::')[-1] == 'Vector' for i in m.impls):
            R.missing('Vector for wrappers', 'the implementation of Vector for types that dereference to a vector')
    def new(byval=False):
        I, st = R.interp(), State()
        I.wrapper = True
        return I, st
    rule = 'the effect, result and operand order are those of the operation on the wrapped vector; in-place operations return the wrapper'
    for n, (kind, want) in list(VEC.items()) + list(INPL.items()):
        b = bodies.get(n)
        if b is None:
            continue
        for byval in ((False, True) if kind in (1, 3) else (False,)):
            def ob(b=b, n=n, kind=kind, want=want, byval=byval):
                I, st = new()
                a, c = win(st, 'a'), win(st, 'b')
                args = [a]
                if kind in (1, 3):
                    args.append(wrap(B) if byval else c)
                if kind in (2, 3):
                    args.append(var('s'))
                o = run(I, b, args, st)
                no_panic(o, n)
                w = wrap(want(A, B, sided(side_of(n), var('s')) if side_of(n) else var('s')))
                if n in VEC:
                    same(Md.rd(st, o.val), w, 'the result of %s' % n, st)
                    same(st.read(a), wrap(A), 'the left operand after %s' % n, st)
                else:
                    same(st.read(a), w, 'the target after %s' % n, st)
                    same(o.val, a, 'the reference returned by %s' % n, st)
                same(st.read(c), wrap(B), 'the right operand after %s' % n, st)
            R.decide('wrapper %s%s' % (n, ' (operand by value)' if byval else ''), b, rule, ob)
    il = StructV('abslist', 0, ('items',))
    cons = {
        'new': ([], LZERO), 'from_key': ([var('k')], lin_key(var('k'))),
        'from_key_scalar': ([var('k'), var('s')], lin_key(var('k'), var('s'))),
        'from_iterator': ([il], LinV({('iter', 'items'): ONE})),
    }
    for n, (args, w) in cons.items():
        b = bodies.get(n)
        if b is None:
            continue
        def ob(b=b, n=n, args=args, w=w):
            def once(args, w, what=''):
                I, st = new()
                o = run(I, b, list(args), st)
                no_panic(o, n)
                same(o.val, wrap(w), 'the result of %s%s' % (n, what), st)
            try:
                once(args, w)
            except Undecided:
                if n != 'from_iterator':
                    raise
                # the list is taken apart: lists of known length
                def lst(ks):
                    w = LZERO
                    for j, k in enumerate(ks):
                        w = w + lin_key(lift(k), var('s%d' % j))
                    once([items(ks)], w, ' with keys %s' % (ks,))
                each_shape(LISTS, lst, R, lists_around)
                return 'bounded'
        R.decide('wrapper ' + n, b, rule, ob)
    def op(n, build, check):
        b = bodies.get(n)
        if b is None:
            return
        for byval in (False, True):
            def ob():
                I, st = new()
                a = win(st, 'a')
                args = build(st, byval)
                if args is None:
                    raise Skip()
                o = run(I, b, [a] + args, st)
                no_panic(o, n)
                check(st, o, a)
            R.decide('wrapper %s%s' % (n, ' (argument by value)' if byval else ''), b, rule, ob)
    def tgt(w):
        def check(st, o, a):
            same(st.read(a), wrap(w), 'the target', st)
        return check
    op('to_owned', lambda st, v: None if v else [], lambda st, o, a: (same(o.val, wrap(A), 'the copy', st), same(st.read(a), wrap(A), 'the original', st)))
    op('clear', lambda st, v: None if v else [], tgt(LZERO))
    def getter(st, o, a):
        p = ('b', 'vpres', 'a', var('k'))
        w = IteV(p, some(a.ext(('f', 0), ('co', var('k')))), NONE)
        same(o.val, w, 'the result', st)
        same(st.read(a), wrap(A), 'the vector', st)
    op('get', lambda st, v: [key(st, v)], getter)
    op('get_mut', lambda st, v: [key(st, v)], getter)
    op('insert_single', lambda st, v: None if v else [key(st, False), var('s')],
       tgt(A + lin_key(var('k'), var('s') - lin_coef(A, var('k')))))
    op('erase', lambda st, v: [key(st, v)], tgt(A + lin_key(var('k'), -lin_coef(A, var('k')))))
    b = bodies.get('insert')
    if b is not None:
        def ob():
            def once(l, w, what):
                I, st = new()
                a = win(st, 'a')
                o = run(I, b, [a, l], st)
                no_panic(o, 'insert')
                same(st.read(a), wrap(w), 'the target of insert%s' % what, st)
            try:
                once(il, LinV({('ins', frozenset(A.t.items()), 'items'): ONE}), '')
            except Undecided:
                def lst(ks):
                    w = A
                    for k in dict.fromkeys(ks):
                        j = len(ks) - 1 - ks[::-1].index(k)
                        w = w + lin_key(lift(k), var('s%d' % j) - lin_coef(A, lift(k)))
                    once(items(ks), w, ' of keys %s' % (ks,))
                each_shape(LISTS, lst, R, lists_around)
                return 'bounded'
        R.decide('wrapper insert', b, rule, ob)
    def swapped(st, o, a):
        same(st.read(a), wrap(B), 'the target of swap', st)
        same(st.read(RefV(('in', 'b'))), wrap(A), 'the operand of swap', st)
    op('swap', lambda st, v: None if v else [win(st, 'b')], swapped)

    # the dense tensor wraps its vector without altering it
    for i in m.impls:
        if (i.get('trait') or '').split('::')[-1] != 'Deref' or i['self'].get('k') != 'adt':
            continue
        adt = i['self']['p']
        T = adt.split('::')[-1]
        if adt not in m.adts or m.adts[adt]['kind'] != 'Struct':
            continue
        if m.method(T, 'DerefMut', 'deref_mut') is None:
            continue
        fields = m.adts[adt]['variants'][0]['f']
        vf = [n for n, f in enumerate(fields) if 'Vector' in tyname(f['t'])]
        if len(vf) != 1:
            continue
        vf = vf[0]
        def mk(x):
            return StructV(adt, 0, [x if n == vf else Opaque('other') for n in range(len(fields))])
        inner = StructV('inner', 0, (Opaque('x'), lin_atom('d')))
        for tr, n in (('Deref', 'deref'), ('DerefMut', 'deref_mut')):
            b = m.method(T, tr, n)
            if b is None:
                R.missing('%s::%s' % (T, n), '%s for %s' % (tr, T))
                continue
            def ob(b=b, n=n):
                I, st = R.interp(), State()
                st.mem[('in', 't')] = mk(inner)
                r = RefV(('in', 't'))
                o = run(I, b, [r], st)
                no_panic(o, n)
                same(o.val, r.ext(('f', vf)), 'the reference returned by %s' % n, st)
                same(st.read(r), mk(inner), 'the wrapper after %s' % n, st)
            R.decide('%s::%s' % (T, n), b, 'the reference is to the wrapped vector, which is unchanged', ob)
        b = m.method(T, 'From', 'from')
        if b is not None:
            def ob():
                I, st = R.interp(), State()
                o = run(I, b, [inner], st)
                no_panic(o, 'from')
                got = o.val
                same(vread(got, (('f', vf),)), inner, 'the vector wrapped by from', st)
            R.decide('%s::from' % T, b, 'the vector wrapped is the one given', ob)
        b = m.method(T, 'Into', 'into')
        if b is not None:
            def ob():
                I, st = R.interp(), State()
                o = run(I, b, [mk(inner)], st)
                no_panic(o, 'into')
                same(o.val, inner, 'the vector returned by into', st)
            R.decide('%s::into' % T, b, 'the vector returned is the one wrapped', ob)

def C21w(R):
    """two dense tensors are equal exactly when what they wrap is"""
    from . import dense
    m = R.mir
    b = m.method('DenseTensor', 'PartialEq', 'eq')
    adt = next((a for a in m.adts.values() if a['p'].split('::')[-1] == 'DenseTensor'), None)
    L = dense.layout(R)
    if b is None or adt is None or L is None:
        R.missing('DenseTensor::eq', 'equality of dense tensors')
        return
    fs = adt['variants'][0]['f']
    at = next((n for n, f in enumerate(fs) if f['t'].get('p') == L.adt['p']), None)
    for ne in (False, True):
        bb = b
        if ne:
            bb = m.method('DenseTensor', 'PartialEq', 'ne')
            if bb is None:
                continue
        def ob(bb=bb, ne=ne):
            if at is None:
                raise Undecided('the vector a dense tensor wraps is not recognised')
            def one(c):
                na, nb, ka, kb = c
                I, st = R.interp(cparam=lift(2)), State()
                sa, sb = dense.seqof('a', lift(na)), dense.seqof('b', lift(nb))
                for n, s, k in (('a', sa, ka), ('b', sb, kb)):
                    v = L.make(st, s, k, n)
                    st.mem[('in', n)] = StructV(adt['p'], 0, [v if i == at else Opaque('PhantomData') for i in range(len(fs))])
                o = run(I, bb, [RefV(('in', 'a')), RefV(('in', 'b'))], st)
                no_panic(o, 'eq')
                w = na == nb and conj(*[eq(sa.get(lift(i)), sb.get(lift(i))) for i in range(na)])
                same(o.val, neg(w) if ne else w, '%s of tensors with %d and %d coefficients' % ('inequality' if ne else 'equality', na, nb), st)
            each_shape([(x, y, p, q) for x, y in dense.PAIRS for p in L.kinds for q in L.kinds], one, R, lambda c: [(x, y, p, q) for x, y in pairs_around(c) for p in L.kinds for q in L.kinds])
            return 'bounded'
        R.decide('tensor %s' % ('ne' if ne else 'eq'), bb, 'equal exactly when the wrapped vectors are', ob, shapes=len(dense.PAIRS) * len(L.kinds) ** 2)
