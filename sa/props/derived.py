"""C03, C04, C11: operations derived from the basic ones, analysed once for an arbitrary vector or
algebra (the basic operations of the type parameter are replaced by their contracts)."""
from ..spec import *

def default(R, trait, name):
    """the default body; None (recorded) when there is none"""
    m = R.mir
    b = m.trait_default(trait, name)
    if b is not None:
        return b
    for p, t in m.traits.items():
        if p.split('::')[-1] == trait:
            if any(x[1] == name for x in t['items']):
                return None           # now a required method: each implementation is checked
    R.missing('%s::%s' % (trait, name), '%s::%s' % (trait, name))
    return None

def lin(st, n):
    st.mem[('in', n)] = lin_atom(n)
    return RefV(('in', n))

VEC = {
    'uminus': (0, lambda a, b, s: a.scale(MONE)),
    'add': (1, lambda a, b, s: a + b),
    'sub': (1, lambda a, b, s: a + b.scale(MONE)),
    'scalar_rmultiply': (2, lambda a, b, s: a.scale(s)),
    'scalar_lmultiply': (2, lambda a, b, s: a.scale(s)),
    'scalar_rdivide': (2, lambda a, b, s: a.scale(inv(s))),
    'scalar_ldivide': (2, lambda a, b, s: a.scale(inv(s))),
}
INPL = {
    'uminus_inplace': (0, lambda a, b, s: a.scale(MONE)),
    'add_inplace': (1, lambda a, b, s: a + b),
    'sub_inplace': (1, lambda a, b, s: a + b.scale(MONE)),
    'scalar_lmultiply_inplace': (2, lambda a, b, s: a.scale(s)),
    'scalar_rmultiply_inplace': (2, lambda a, b, s: a.scale(s)),
    'scalar_rdivide_inplace': (2, lambda a, b, s: a.scale(inv(s))),
    'scalar_ldivide_inplace': (2, lambda a, b, s: a.scale(inv(s))),
}
for _o, _g in (('add', ONE), ('sub', MONE)):
    for _d in 'rl':
        INPL['%s_scalar_%smultiply' % (_o, _d)] = (3, lambda a, b, s, g=_g: a + b.scale(s * g))
        INPL['%s_scalar_%sdivide' % (_o, _d)] = (3, lambda a, b, s, g=_g: a + b.scale(inv(s) * g))
REQUIRED = {'uminus_inplace', 'add_inplace', 'sub_inplace', 'scalar_lmultiply_inplace', 'scalar_rdivide_inplace'}

def C03(R):
    for n, (kind, want) in list(VEC.items()) + list(INPL.items()):
        b = R.mir.trait_default('Vector', n) if n in REQUIRED else default(R, 'Vector', n)
        if b is None:
            continue
        for byval in ((False, True) if kind in (1, 3) else (False,)):
            def ob(b=b, n=n, kind=kind, want=want, byval=byval):
                I, st = R.interp(), State()
                a, c = lin(st, 'a'), lin(st, 'b')
                s = var('s')
                args = [a]
                if kind in (1, 3):
                    args.append(lin_atom('b') if byval else c)
                if kind in (2, 3):
                    args.append(s)
                o = run(I, b, args, st)
                no_panic(o, n)
                w = want(lin_atom('a'), lin_atom('b'), s)
                if n in VEC:
                    same(Md.rd(st, o.val), w, 'the result of %s' % n, st)
                    same(st.read(a), lin_atom('a'), 'the left operand after %s' % n, st)
                else:
                    same(st.read(a), w, 'the target after %s' % n, st)
                    same(o.val, a, 'the reference returned by %s' % n, st)
                same(st.read(c), lin_atom('b'), 'the right operand after %s' % n, st)
            R.decide('Vector::%s%s' % (n, ' (operand by value)' if byval else ''), b,
                     'the result is the linear combination specified, operands unchanged, target returned', ob)
    # the vector types' own versions of them
    from . import dense, sparse
    for ty, mod in (('SimpleDenseVector', dense), ('SimpleSparseVector', sparse)):
        own = [n for n in list(VEC) + list(INPL) if n not in REQUIRED and R.mir.method(ty, 'Vector', n)]
        if own:
            L = mod.layout(R)
            if L is not None:
                mod.arithmetic(R, L, own, ty + '::')

EXT = {
    'add_scalar_multiply': lambda s: s,
    'sub_scalar_multiply': lambda s: -s,
    'add_scalar_divide': inv,
    'sub_scalar_divide': lambda s: -inv(s),
}

def C04(R):
    # an implementation that overrides one of them is held to the same contract
    own = [(n, R.mir.fn(p)) for i in R.mir.impls if (i.get('trait') or '').split('::')[-1] == 'VectorKeyExt'
           for kind, n, p in i['items'] if n in EXT]
    for n, b in [(n, default(R, 'VectorKeyExt', n)) for n in EXT] + own:
        want = EXT[n]
        if b is None:
            continue
        for byval in (False, True):
            for case in ('stored', 'not stored', 'either'):
                def ob(b=b, n=n, want=want, byval=byval, case=case):
                    I, st = R.interp(), State()
                    a = lin(st, 'a')
                    k = var('k')
                    st.mem[('in', 'k')] = k
                    pres = ('b', 'vpres', 'a', k)
                    if case != 'either':
                        st.assume(pres, case == 'stored')
                    o = run(I, b, [a, k if byval else RefV(('in', 'k')), var('s')], st)
                    no_panic(o, n)
                    # the coefficient of a key that is not stored is zero
                    old = lin_coef(lin_atom('a'), k)
                    got = st.read(a)
                    same(lin_coef(got, k), old + want(var('s')), 'the coefficient of the key after %s' % n, st)
                    other = var('otherkey')
                    same(lin_coef(got, other), lin_coef(lin_atom('a'), other), 'the coefficient of another key after %s' % n, st,
                         [(eq(other, k), False)])
                    same(o.val, a, 'the reference returned by %s' % n, st)
                    same(st.read(RefV(('in', 'k'))), k, 'the key after %s' % n, st)
                R.decide('VectorKeyExt::%s%s (key %s%s)' % (n, ' for every vector' if b.get('impl_trait') else '', case, ', by value' if byval else ''), b,
                         'the coefficient of the key changes by the amount specified; no other coefficient changes', ob)

# ------------------------------------------------------------------ algebras
ALG = {
    # name: (kind, expected)   kind: result / target
    'multiply': ('res', ('b', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D)),
    'multiply_inplace': ('tgt', ('b', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D)),
    'add_mul': ('tgt', ('b', 'c', 'deg'), lambda a, b, c, s, D: a + lin_prod(b, c, D)),
    'sub_mul': ('tgt', ('b', 'c', 'deg'), lambda a, b, c, s, D: a + lin_prod(b, c, D, MONE)),
    'commutator': ('res', ('b', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D) + lin_prod(b, a, D, MONE)),
    'mul_scal_lprod': ('tgt', ('b', 's', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D, s)),
    'mul_scal_rprod': ('tgt', ('b', 's', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D, s)),
    'mul_rat_ldiv': ('tgt', ('b', 's', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D, inv(s))),
    'mul_rat_rdiv': ('tgt', ('b', 's', 'deg'), lambda a, b, c, s, D: lin_prod(a, b, D, inv(s))),
}

def C11(R):
    def expression(b, n, kind, params, want, D, byval):
        I, st = R.interp(), State()
        a, c = lin(st, 'a'), None
        refs = {}
        args = [a]
        for p in params:
            if p in ('b', 'c'):
                refs[p] = lin(st, p)
                args.append(lin_atom(p) if byval else refs[p])
            else:
                args.append(var('s') if p == 's' else D)
        o = run(I, b, args, st)
        no_panic(o, n)
        w = want(lin_atom('a'), lin_atom('b'), lin_atom('c'), var('s'), D)
        if kind == 'res':
            same(Md.rd(st, o.val), w, 'the result of %s' % n, st)
            same(st.read(a), lin_atom('a'), 'the left operand after %s' % n, st)
        else:
            same(st.read(a), w, 'the target after %s' % n, st)
            same(o.val, a, 'the reference returned by %s' % n, st)
        for p, r in refs.items():
            same(st.read(r), lin_atom(p), 'operand %s after %s' % (p, n), st)
    for n, (kind, params, want) in ALG.items():
        b = default(R, 'Algebra', n)
        if b is None:
            continue
        for D, dn in ((some(var('D', 0, 2 ** 32 - 1)), 'a degree'), (NONE, 'no degree')):
            for byval in (False, True):
                def ob(b=b, n=n, kind=kind, params=params, want=want, D=D, byval=byval):
                    expression(b, n, kind, params, want, D, byval)
                R.decide('Algebra::%s (%s%s)' % (n, dn, ', operands by value' if byval else ''), b,
                         'the result is the expression specified in products truncated at the degree given; operands unchanged; target returned', ob)
    # the tensors' own versions of them
    for n, (kind, params, want) in ALG.items():
        for b in R.mir.roots:
            if b.get('name') != n or (b.get('impl_trait') or '').split('::')[-1] != 'Algebra':
                continue
            for byval in (False, True):
                def ob(b=b, n=n, kind=kind, params=params, want=want, byval=byval):
                    try:
                        expression(b, n, kind, params, want, some(var('D', 0, 2 ** 32 - 1)), byval)
                        return 'proved'
                    except (Mismatch, Undecided) as e:
                        R.notes.append('%s: for every algebra: %s' % (n, e))
                    R.restart()
                    tensors(R, b, n, kind, params, byval)
                    return 'bounded'
                R.decide('Algebra::%s of tensors%s' % (n, ' (operands by value)' if byval else ''), b,
                         'the result is the expression specified in products truncated at the degree given; operands unchanged; target returned', ob)

def tensors(R, b, n, kind, params, byval):
    """an operation of an algebra, on tensors of some lengths"""
    from . import product as P
    ident = lambda x: x
    def prod(N, x, y, D, g=ident):
        return P.expected(N, (), x, y, D, g)
    def plus(*ms):
        r = {}
        for m in ms:
            for k, v in m.items():
                r[k] = r.get(k, ZERO) + v
        return r
    neg1 = lambda x: -x
    want = {
        'multiply': lambda N, a, b, c, s, D: prod(N, a, b, D),
        'multiply_inplace': lambda N, a, b, c, s, D: prod(N, a, b, D),
        'add_mul': lambda N, a, b, c, s, D: plus(dict(enumerate(a)), prod(N, b, c, D)),
        'sub_mul': lambda N, a, b, c, s, D: plus(dict(enumerate(a)), prod(N, b, c, D, neg1)),
        'commutator': lambda N, a, b, c, s, D: plus(prod(N, a, b, D), prod(N, b, a, D, neg1)),
        'mul_scal_lprod': lambda N, a, b, c, s, D: prod(N, a, b, D, lambda x: x * s),
        'mul_scal_rprod': lambda N, a, b, c, s, D: prod(N, a, b, D, lambda x: x * s),
        'mul_rat_ldiv': lambda N, a, b, c, s, D: prod(N, a, b, D, lambda x: x * inv(s)),
        'mul_rat_rdiv': lambda N, a, b, c, s, D: prod(N, a, b, D, lambda x: x * inv(s)),
    }[n]
    shapes = []
    for N, ls in ((1, (0, 1, 3)), (2, (0, 1, 2, 3, 5, 7, 9)), (3, (1, 4, 6, 13))):
        S = P.starts(N, 12)
        for la in ls:
            for lb in ls:
                t = P.degree(max(la - 1, 0), S) + P.degree(max(lb - 1, 0), S)
                shapes += [(N, la, lb, (la + lb) % 6, D) for D in sorted({0, 1, max(t - 1, 0), t, t + 1, 2 ** 32 - 1})]
    def one(x):
        N, la, lb, lc, D = x
        I, st = R.interp(cparam=lift(N), fuel=3000000), State()
        I.absvec, I.maxdepth = 'dv', 200
        ops, refs = {}, {}
        for nm, l in (('a', la), ('b', lb), ('c', lc)):
            ops[nm] = P.coefs(nm, l)
            st.mem[('in', nm)] = StructV('dv', 0, (ops[nm],))
            refs[nm] = RefV(('in', nm))
        args = [refs['a']]
        for p in params:
            if p in ('b', 'c'):
                args.append(st.read(refs[p]) if byval else refs[p])
            else:
                args.append(var('s') if p == 's' else some(lift(D)))
        o = run(I, b, args, st)
        no_panic(o, n)
        w = want(N, ops['a'].items, ops['b'].items, ops['c'].items, var('s'), D)
        v = Md.rd(st, o.val if kind == 'res' else refs['a'])
        if not (isinstance(v, StructV) and v.tag == 'dv'):
            raise Undecided('a dense vector is expected, got %r' % (v,))
        q = v.fields[0]
        m = seq_len(q).as_int()
        if m is None:
            raise Undecided('a vector of unknown length')
        for k in range(max([m] + [x + 1 for x in w])):
            same(seq_get(q, lift(k)) if k < m else ZERO, w.get(k, ZERO),
                 'the coefficient of word number %d over %d letters after %s up to degree %d' % (k, N, n, D), st)
        if kind != 'res':
            same(o.val, refs['a'], 'the reference returned by %s' % n, st)
        for p in ('a', 'b', 'c'):
            if p in params or p == 'a' and kind == 'res':
                same(st.read(refs[p]), StructV('dv', 0, (ops[p],)), 'operand %s after %s' % (p, n), st)
    each_shape(shapes, one)
