"""C12: exp, fused multiply-exp and log over the universal graded algebra. A tensor is c*1 + X_1 + ... with
X_d an arbitrary element of degree d; products are words in these parts, truncated by degree. Whatever
holds of the coefficients of all words holds in every graded algebra."""
from fractions import Fraction
from math import factorial
from ..spec import *
from .. import values
from ..contracts import canon_key

def deg(w):
    return sum(d for _, d in w)

def gprod(a, b, D, coef=ONE):
    """the product, truncated at degree D (None: not truncated)"""
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if m1[0] != 'word' or m2[0] != 'word':
                raise Undecided('a product of something other than graded parts')
            w = m1[1] + m2[1]
            if D is not None and deg(w) > D:
                continue
            m = ('word', w)
            r[m] = r.get(m, ZERO) + c1 * c2 * coef
    return LinV(r)

def tensor(name, top, scalar, parts=None):
    t = {('word', ((name, d),)): ONE for d in range(1, top + 1) if parts is None or d in parts}
    if scalar.t:
        t[('word', ())] = scalar
    return LinV(t)

def upto(v, D):
    return LinV({m: c for m, c in v.t.items() if m[0] != 'word' or deg(m[1]) <= D})

def C12(R):
    m = R.mir
    one = LinV({('word', ()): ONE})
    def drop(v):
        return LinV({k: c for k, c in v.t.items() if k != ('word', ())})
    def powers(x, D):
        out = [one]
        for k in range(D):
            out.append(gprod(out[-1], x, D))
        return out
    def exp(x, D):
        r = LZERO
        for k, p in enumerate(powers(x, D)):
            r = r + p.scale(lift(Fraction(1, factorial(k))))
        return r
    def log(x, D):
        r = LZERO
        for k, p in enumerate(powers(drop(x), D)):
            if k:
                r = r + p.scale(lift(Fraction((-1) ** (k + 1), k)))
        return r
    def fmexp(a, x, D):
        return gprod(a, exp(drop(x), D), D)
    newkey = m.inherent('TensorKey', 'new')
    def setup(D, pres):
        I, st = R.interp(cparam=lift(3), fuel=400000), State()
        I.consts['MAX_DEGREE'] = lift(D)
        o = run(I, newkey, [], st)
        values.UNIT_KEY[0] = canon_key(o.val)
        def lp(l, r, dg, coef=ONE):
            if isinstance(dg, StructV) and dg.tag == OPTION:
                if dg.variant == 0:
                    raise Undecided('a product without truncation degree')
                n = dg.fields[0].as_int() if isinstance(dg.fields[0], Poly) else None
                if n is not None:
                    return gprod(l, r, n, coef)
            raise Undecided('truncation degree %r' % (dg,))
        def pr(v, k):
            if k != values.UNIT_KEY[0]:
                raise Undecided('presence of another key')
            if ('word', ()) in v.t:
                return True
            return pres
        I.lin_prod, I.lin_pres = lp, pr
        return I, st
    top = 9 if R.thorough else 7
    for n, args in (('exp', 'x'), ('log', 'x'), ('fmexp', 'ax')):
        b = m.trait_default('FreeTensor', n)
        if b is None:
            R.missing('FreeTensor::' + n, n)
            continue
        high = (list(range(top + 1, 34)) + [40, 50, 64]) if not R.thorough else list(range(top + 1, 61)) + [64, 80, 100]
        def degrees():
            done = list(range(top + 1)) + high
            yield from done
            for c in R.limits(hi=130, every=True):
                for D in (c - 1, c, c + 1, c + 2):
                    if D not in done:
                        done.append(D)
                        yield D
        for D in degrees():
            for pres in (True, False):
                def ob(b=b, n=n, args=args, D=D, pres=pres):
                    if newkey is None:
                        raise Undecided('the empty word')
                    try:
                        # the scalar part: arbitrary, zero but stored, or not stored
                        # (beyond the degrees where every graded part is given: the part of degree one, with and without another)
                        for c, parts in [(c, ps) for c in ((var('c'), ZERO) if pres else (ZERO,)) for ps in ((None,) if D <= top else ((1,), (1, D // 2 + 1)))]:
                            I, st = setup(D, pres)
                            x = tensor('X', D + 1, c, parts)
                            a = tensor('A', D, var('a0'), parts)
                            st.mem[('in', 'x')], st.mem[('in', 'a')] = x, a
                            rx, ra = RefV(('in', 'x')), RefV(('in', 'a'))
                            if n == 'fmexp':
                                o = run(I, b, [ra, rx], st)
                                want, got = fmexp(a, x, D), None
                            else:
                                o = run(I, b, [rx], st)
                                want = (exp if n == 'exp' else log)(x, D)
                            no_panic(o, n)
                            got = st.read(ra) if n == 'fmexp' else Md.rd(st, o.val)
                            if not isinstance(got, LinV):
                                raise Undecided('a tensor is expected, got %r' % (got,))
                            same(upto(got, D), upto(want, D), '%s with maximum degree %d%s' % (n, D, '' if pres else ' (no scalar part stored)'), st)
                            same(st.read(rx), x, 'the argument after %s' % n, st)
                            if n == 'fmexp':
                                same(o.val, ra, 'the reference returned by fmexp', st)
                    finally:
                        values.UNIT_KEY[0] = None
                    return 'bounded'
                R.decide('FreeTensor::%s, maximum degree %d, scalar part %s' % (n, D, 'stored' if pres else 'not stored'), b,
                         'the coefficient of every word in the graded parts is that of the truncated series; the argument is unchanged', ob)
