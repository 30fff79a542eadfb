"""C10: multiplication of dense tensors, over arbitrary dense vectors (contract of the dense vector traits) with
symbolic coefficients and an arbitrary coefficient function, for listed alphabets, lengths and degrees."""
from ..spec import *

def starts(N, top=40):
    s = [0]
    for d in range(top):
        s.append(s[-1] + N ** d)
    return s

def degree(i, S):
    d = 0
    while S[d + 1] <= i:
        d += 1
    return d

def coefs(name, n):
    return SeqList([app('el', name, lift(i)) for i in range(n)])

def fn(x):
    return app('fn', x)

def expected(N, old, a, b, D, fn=fn):
    S = starts(N, 40 if N > 1 else max(80, len(a) + len(b) + 2))
    out = dict(enumerate(old))
    for i, x in enumerate(a):
        p = degree(i, S)
        for j, y in enumerate(b):
            q = degree(j, S)
            if p + q > D:
                continue
            k = S[p + q] + (i - S[p]) * N ** q + (j - S[q])
            out[k] = out.get(k, ZERO) + fn(x * y)
    return out

def cases(R):
    """(width, length of the target, of the left and of the right operand, truncation degree)"""
    L = {1: (0, 1, 2, 3, 5), 2: (0, 1, 2, 3, 5, 7, 9), 3: (0, 1, 3, 4, 8, 13), 4: (1, 4, 5, 7), 5: (1, 6, 8)}
    if R.thorough:
        L = {1: (0, 1, 2, 3, 4, 5, 8), 2: (0, 1, 2, 3, 4, 5, 7, 8, 11, 15, 17), 3: (0, 1, 2, 3, 4, 7, 8, 13, 20), 4: (0, 1, 4, 5, 7, 21, 30), 5: (0, 1, 3, 6, 8, 31), 7: (1, 8, 9)}
    for N, ls in L.items():
        S = starts(N, 12)
        for la in ls:
            for lb in ls:
                da, db = degree(max(la - 1, 0), S), degree(max(lb - 1, 0), S)
                for D in range(da + db + 2):
                    yield N, la, lb, D
                yield N, la, lb, 2 ** 32 - 1
    # high degrees on one side or both
    deep = [(1, 12, 1), (1, 1, 12), (1, 10, 9), (2, 1, 64), (2, 64, 1), (2, 33, 4), (2, 4, 33), (3, 125, 1), (3, 1, 122), (3, 41, 2), (3, 2, 41), (4, 1, 86), (4, 22, 5), (6, 8, 43), (9, 10, 11), (10, 2, 111)]
    if R.thorough:
        deep += [(1, 30, 30), (2, 130, 3), (2, 5, 130), (2, 31, 31), (3, 1, 370), (3, 370, 1), (3, 45, 45), (4, 90, 6), (8, 75, 10), (12, 14, 160)]
    for N, la, lb in deep:
        S = starts(N, 40 if N == 1 else 12)
        t = degree(la - 1, S) + degree(lb - 1, S)
        for D in sorted({t, t - 1, max(t - 2, 0), t + 1, t // 2}):
            yield N, la, lb, D

def cases_around(c):
    """operand lengths, degree blocks, widths and degrees around c"""
    out = []
    def add(N, la, lb, *Ds):
        S = starts(N, 40 if N > 1 else 3000)
        if la * lb > 6000 or max(la, lb) > 3000 or N == 1 and max(la, lb) > 200:
            return
        t = degree(max(la, 1) - 1, S) + degree(max(lb, 1) - 1, S)
        for D in sorted(set(Ds) or {t, t + 1, max(t - 1, 0)}):
            n = S[min(D, t) + 1]
            if N == 1 or n <= 8000:
                out.append((n + la * lb, N, la, lb, D))
    for x in (c, c + 1, 2 * c + 1):
        d = 1
        while 2 ** d <= x:
            d += 1
        for la, lb in ((x + 1, 1), (1, x + 1), (x, x), (x + 1, 3), (3, x + 1)):
            for N in (1, 2, 3):
                add(N, la, lb)
        # one block longer than c: degree one of a wide alphabet, a high degree of a narrow one
        for la, lb in ((1, 2 ** (d + 1) - 1), (2 ** (d + 1) - 1, 1), (2, 2 ** (d + 1) - 1), (2 ** (d + 1) - 1, 2)):
            add(2, la, lb)
        for la, lb in ((x + 1, 2), (2, x + 1), (x + 1, 1), (1, x + 1), (3, x + 2), (x + 3, 2), (2, x + 3), (x + 1, x + 1), (2, 2)):
            add(x, la, lb)
    for N in (1,):
        for la, lb in ((c + 3, 1), (1, c + 3), (c + 3, 3), (c // 2 + 2, c // 2 + 2)):
            add(N, la, lb, c - 1, c, c + 1, c + 2)
    return [k[1:] for k in sorted(set(out))]

def C10(R):
    m = R.mir
    impl = lambda n: next((b for b in m.roots if b.get('name') == n and (b.get('impl_trait') or '').split('::')[-1] == 'Algebra'), None)
    F = StructV('absfn', 0, ('fn',))
    def put(st, name, s):
        st.mem[('in', name)] = StructV('dv', 0, (s,))
        return RefV(('in', name))
    def seq(st, r):
        v = Md.rd(st, r)
        if not (isinstance(v, StructV) and v.tag == 'dv'):
            raise Undecided('a dense vector is expected, got %r' % (v,))
        s = v.fields[0]
        n = seq_len(s).as_int()
        if n is None:
            raise Undecided('a vector of unknown length')
        return [seq_get(s, lift(i)) for i in range(n)]
    def check(st, r, want, what, N):
        got = seq(st, r)
        for k in range(max([len(got)] + [x + 1 for x in want])):
            same(got[k] if k < len(got) else ZERO, want.get(k, ZERO), 'the coefficient of word number %d over %d letters in %s' % (k, N, what), st)
    def start(N):
        I, st = R.interp(cparam=lift(N), fuel=3000000), State()
        I.absvec, I.maxdepth = 'dv', 200
        return I, st
    by = {}
    for N, la, lb, D in cases(R):
        by.setdefault(N, []).append((la, lb, D))
    b = impl('multiply_and_add_into_impl')
    def desc(N, la, lb, D, lt=None):
        return 'tensors of %d and %d coefficients multiplied up to degree %d%s' % (la, lb, D, '' if lt is None else ' into one of %d' % lt)
    if b is None:
        R.missing('multiply_and_add_into_impl', 'multiplication of dense tensors')
    else:
        for N, cs in by.items():
            for mode in ('', ', operands by value', ', both operands the same'):
                def ob(N=N, cs=cs, mode=mode):
                    def one(c):
                        la, lb, D = c
                        if mode.endswith('same') and la != lb:
                            return
                        if mode and D > 3:
                            return
                        S = starts(N, 12 if N > 1 else 80)
                        for lt in ((0, la + 1, 2 * S[2] + 1, S[min(5, degree(max(la, 1) - 1, S) + degree(max(lb, 1) - 1, S) + 2)] if N < 4 else S[3]) if not mode else (2,)):
                            I, st = start(N)
                            old, a, c2 = coefs('t', lt), coefs('a', la), coefs('b', lb)
                            t, x = put(st, 't', old), put(st, 'a', a)
                            if mode.endswith('same'):
                                c2, y = a, x
                            else:
                                y = put(st, 'b', c2)
                            args = [st.read(x), st.read(y)] if 'value' in mode else [x, y]
                            o = run(I, b, [t] + args + [F, some(lift(D))], st)
                            what = desc(N, la, lb, D, lt)
                            no_panic(o, what)
                            check(st, t, expected(N, old.items, a.items, c2.items, D), what, N)
                            for r, v, n in ((x, a, 'left'), (y, c2, 'right')):
                                same(st.read(r), StructV('dv', 0, (v,)), 'the %s operand after multiplication' % n, st)
                    each_shape(cs, one)
                    return 'bounded'
                R.decide('multiply-and-accumulate, width %d%s' % (N, mode), b,
                         'adds, at every word up to the degree, the function of the products over all splits of the word; nothing else changes', ob, shapes=len(cs))
    b2 = impl('multiply_into_impl')
    if b2 is None:
        R.missing('multiply_into_impl', 'in-place multiplication of dense tensors')
    else:
        for N, cs in by.items():
            def ob(N=N, cs=cs):
                def one(c):
                    la, lb, D = c
                    I, st = start(N)
                    a, c2 = coefs('a', la), coefs('b', lb)
                    x, y = put(st, 'a', a), put(st, 'b', c2)
                    o = run(I, b2, [x, y, F, some(lift(D))], st)
                    what = desc(N, la, lb, D) + ' in place'
                    no_panic(o, what)
                    check(st, x, expected(N, (), a.items, c2.items, D), what, N)
                    same(st.read(y), StructV('dv', 0, (c2,)), 'the right operand after in-place multiplication', st)
                each_shape(cs, one)
                return 'bounded'
            R.decide('in-place multiplication, width %d' % N, b2, 'the target becomes the truncated product; the operand is unchanged', ob, shapes=len(cs))
    # sizes around the constants of the code
    for c in R.limits(every=True):
        cs = cases_around(c)
        for into in (False, True):
            bb = b2 if into else b
            if bb is None:
                continue
            def ob(cs=cs, into=into, bb=bb):
                def one(k):
                    N, la, lb, D = k
                    I, st = start(N)
                    S = starts(N, 40 if N > 1 else 3000)
                    a, c2 = coefs('a', la), coefs('b', lb)
                    lt = 0 if into else (S[min(D, degree(max(la, 1) - 1, S) + degree(max(lb, 1) - 1, S)) + 1] if la + lb < 40 else 2)
                    old = coefs('t', lt)
                    x, y, t = put(st, 'a', a), put(st, 'b', c2), put(st, 't', old)
                    o = run(I, bb, ([x, y] if into else [t, x, y]) + [F, some(lift(D))], st)
                    what = desc(N, la, lb, D, None if into else lt)
                    no_panic(o, what)
                    check(st, x if into else t, expected(N, () if into else old.items, a.items, c2.items, D), what, N)
                    same(st.read(y), StructV('dv', 0, (c2,)), 'the right operand after multiplication', st)
                    if not into:
                        same(st.read(x), StructV('dv', 0, (a,)), 'the left operand after multiplication', st)
                each_shape(cs, one)
                return 'bounded'
            R.decide('%s, sizes around %d' % ('in-place multiplication' if into else 'multiply-and-accumulate', c), bb,
                     'the product up to the degree, at sizes around a constant of the code', ob, shapes=len(cs))
