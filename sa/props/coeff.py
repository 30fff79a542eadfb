"""C02: coefficient arithmetic; the contract every CoefficientField implementation is held to."""
from ..spec import *
from .. import floats
from fractions import Fraction
from ..contracts import AbsBasis

TWO = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a * inv(b)}

def C02(R):
    m = R.mir
    impls = [i for i in m.impls if (i.get('trait') or '').split('::')[-1] == 'CoefficientField']
    types = [tyname(i['self']) for i in impls]
    for need in ('f32', 'f64'):
        if need not in types:
            R.missing('CoefficientField for ' + need, 'the implementation of CoefficientField for ' + need)
    for i in impls:
        T = tyname(i['self'])
        if i['self'].get('k') not in ('float', 'int'):
            continue
        consts = {c['p']: c for c in m.d['consts']}
        for n, w in (('ZERO', 0), ('ONE', 1), ('MONE', -1)):
            p = [x[2] for x in i['items'] if x[1] == n]
            c = consts.get(p[0]) if p else None
            def const():
                if c is None or 'bits' not in c:
                    raise Undecided('constant not evaluated')
                v = R.interp().decode(c, c['t'])
                same_num(v, lift(w), '%s of %s' % (n, T))
            R.decide('%s::%s' % (T, n), None, '%s is the number %d' % (n, w), const)
        def arg(st, n):
            st.mem[('in', n)] = var(n)
            return RefV(('in', n))
        for n, op in TWO.items():
            b = m.method(T, 'CoefficientField', n) or m.trait_default('CoefficientField', n)
            if b is None:
                R.missing('%s::%s' % (T, n), 'CoefficientField::%s of %s' % (n, T))
                continue
            def pure(b=b, n=n, op=op):
                I, st = R.interp(), State()
                x, y = arg(st, 'x'), arg(st, 'y')
                o = run(I, b, [x, y], st)
                no_panic(o, n)
                same(o.val, op(var('x'), var('y')), 'the result of %s(x, y)' % n, st)
                same(st.read(x), var('x'), 'x after %s' % n, st)
                same(st.read(y), var('y'), 'y after %s' % n, st)
            R.decide('%s::%s' % (T, n), b, 'the value returned is the field %s of the operands, which are unchanged' % n, pure)
            b = m.method(T, 'CoefficientField', n + '_inplace') or m.trait_default('CoefficientField', n + '_inplace')
            if b is None:
                R.missing('%s::%s_inplace' % (T, n), 'CoefficientField::%s_inplace of %s' % (n, T))
                continue
            def inpl(b=b, n=n, op=op):
                I, st = R.interp(), State()
                x, y = arg(st, 'x'), arg(st, 'y')
                o = run(I, b, [x, y], st)
                no_panic(o, n + '_inplace')
                same(st.read(x), op(var('x'), var('y')), 'the target after %s_inplace(x, y)' % n, st)
                same(st.read(y), var('y'), 'y after %s_inplace' % n, st)
                same(o.val, x, 'the reference returned by %s_inplace' % n, st)
            R.decide('%s::%s_inplace' % (T, n), b, 'the target becomes the field %s, is returned, and nothing else changes' % n, inpl)
            b0 = m.method(T, 'CoefficientField', n) or m.trait_default('CoefficientField', n)
            if i['self'].get('k') == 'float':
                def rounding(b=b, b0=b0, n=n, T=T, op=op):
                    p = rounded(R, b0, T, lambda I, st: [arg(st, 'x'), arg(st, 'y')], lambda o, st: o.val)
                    q = rounded(R, b, T, lambda I, st: [arg(st, 'x'), arg(st, 'y')], lambda o, st: st.read(RefV(('in', 'x'))))
                    accurate(p, T, ('x', 'y'), lambda x, y: x + y if n == 'add' else x - y if n == 'sub' else x * y if n == 'mul' else x / y, n)
                    if p == q:
                        return
                    for e in floats.envs(('x', 'y'), T):
                        try:
                            u, v = floats.value(p, e), floats.value(q, e)
                        except floats.NoValue:
                            continue
                        if not floats.same_number(u, v):
                            raise Mismatch('%s_inplace(x, y) leaves %r where %s(x, y) returns %r (for example with x=%r, y=%r)' % (n, float(v), n, float(u), e['x'], e['y']))
                    raise Undecided('the two are computed in different ways: %s and %s' % (show(p), show(q)))
                R.decide('%s::%s rounding' % (T, n), b, 'the in-place operation rounds as the pure one does, and the result is the field\'s to within rounding', rounding)
        for n, w, byref in (('uminus', lambda x: -x, True), ('inv', inv, None)):
            b = m.method(T, 'CoefficientField', n)
            if b is None:
                R.missing('%s::%s' % (T, n), 'CoefficientField::%s of %s' % (n, T))
                continue
            for form in ((True, False) if byref is None else (True,)):
                def un(b=b, n=n, w=w, form=form):
                    I, st = R.interp(), State()
                    x = arg(st, 'x')
                    o = run(I, b, [x if form else var('x')], st)
                    no_panic(o, n)
                    same(o.val, w(var('x')), 'the result of %s(x)' % n, st)
                    same(st.read(x), var('x'), 'x after %s' % n, st)
                R.decide('%s::%s%s' % (T, n, '' if form else ' (by value)'), b, 'the value returned is the field %s' % n, un)
            if i['self'].get('k') == 'float':
                def un2(b=b, n=n, T=T):
                    p = rounded(R, b, T, lambda I, st: [arg(st, 'x')], lambda o, st: o.val)
                    accurate(p, T, ('x',), lambda x: -x if n == 'uminus' else 1 / x, n)
                R.decide('%s::%s rounding' % (T, n), b, 'the result is the field\'s to within rounding', un2)
        b = m.method(T, 'FromDegreeType', 'from_degree')
        if b is None:
            R.missing('%s::from_degree' % T, 'FromDegreeType for ' + T)
        else:
            def fd(b=b):
                I, st = R.interp(), State()
                d = var('deg', 0, 2 ** 32 - 1)
                st.mem[('in', 'd')] = d
                o = run(I, b, [RefV(('in', 'd'))], st)
                no_panic(o, 'from_degree')
                same(o.val, d, 'from_degree(d)', st)
            R.decide('%s::from_degree' % T, b, 'the number returned is the degree', fd)
            if i['self'].get('k') == 'float':
                def fd2(b=b, T=T):
                    def mk(I, st):
                        st.mem[('in', 'd')] = var('deg', 0, 2 ** 32 - 1)
                        return [RefV(('in', 'd'))]
                    p = rounded(R, b, T, mk, lambda o, st: o.val)
                    for d in (0, 1, 2, 3, 7, 255, 256, 65535, 65537, 2 ** 24 + 1, 2 ** 31 + 1, 2 ** 32 - 1, 123456789):
                        try:
                            v = floats.value(p, {'deg': Fraction(d)})
                        except floats.NoValue:
                            raise Undecided(show(p))
                        if not floats.same_number(v, floats.rnd(Fraction(d), T)):
                            raise Mismatch('from_degree(%d) is %r' % (d, float(v)))
                R.decide('%s::from_degree rounding' % T, b, 'the number returned is the one nearest to the degree', fd2)
        b = m.method(T, 'CoefficientField', 'from_rational')
        if b is not None:
            from_rational(R, b, T)
    b = m.trait_default('CoefficientField', 'from_rational')
    if b is not None:
        from_rational(R, b, 'default')
    elif not any(m.method(t, 'CoefficientField', 'from_rational') for t in types):
        R.missing('from_rational', 'CoefficientField::from_rational')

def from_rational(R, b, T):
    def fr():
        I, st = R.interp(), State()
        o = run(I, b, [var('num'), var('den')], st)
        no_panic(o, 'from_rational')
        same(o.val, var('num') * inv(var('den')), 'from_rational(num, den)', st)
    R.decide('%s::from_rational' % T, b, 'the value returned is numerator over denominator', fr)

def rounded(R, b, T, args, out):
    I, st = R.interp(), State()
    I.exact = True
    o = run(I, b, args(I, st), st)
    if not o.ok:
        raise Undecided('never returns')
    v = out(o, st)
    if not isinstance(v, (Poly, IteV)):
        raise Undecided('a number is expected')
    return v

def accurate(p, T, names, f, what):
    some = False
    for e in floats.envs(names, T):
        try:
            got = floats.value(p, e)
            want = f(*[Fraction(e[x]) for x in names])
        except (floats.NoValue, ZeroDivisionError):
            continue
        some = True
        g = float(got)
        w = floats.rnd(want, T)
        if abs(w) > 1e30 or (w and abs(w) < 1e-30):
            continue
        if g != g or abs(g - w) > 64 * floats.ulp(w, T):
            raise Mismatch('%s(%s) is %r, specified %r (for example with %s)' % (what, ', '.join(names), g, w, ', '.join('%s=%r' % (x, e[x]) for x in names)))
    if not some:
        raise Undecided('the number computed is not followed: ' + show(p) if isinstance(p, Poly) else 'the number computed is not followed')
