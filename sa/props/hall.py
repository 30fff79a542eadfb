"""C16 the Lie degree table, C17 Hall keys, C20 Hall set queries."""
from ..spec import *
from .. import ints
from ..contracts import hall_answer

# ------------------------------------------------------------------ the specification: Witt's formula
def moebius(n):
    r, p = 1, 2
    while n > 1:
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            r = -r
        p += 1
    return r

def witt(w, d):
    """number of Hall basis elements of degree d over w letters"""
    s = sum(moebius(j) * w ** (d // j) for j in range(1, d + 1) if d % j == 0)
    assert s % d == 0
    return s // d

def upto(w, d):
    return sum(witt(w, k) for k in range(1, d + 1))

def witt_sym(N, d):
    s = ZERO
    for j in range(1, d + 1):
        if d % j == 0:
            s = s + N ** (d // j) * lift(moebius(j))
    return s

def one_vec(m, name):
    """(adt, index of its only Vec field, number of fields)"""
    a = next((x for x in m.adts.values() if x['p'].split('::')[-1] == name), None)
    if a is None:
        return None
    fs = a['variants'][0]['f']
    v = [n for n, f in enumerate(fs) if f['t']['k'] == 'adt' and f['t']['p'].split('::')[-1] == 'Vec']
    if len(v) != 1:
        raise Undecided('the storage of %s is not recognised' % name)
    return a['p'], v[0], len(fs)

class Table:
    def __init__(self, m):
        r = one_vec(m, 'DegreeRangeMap')
        if r is None:
            raise Skip
        self.adt, self.i, self.n = r
        if self.n != 1:
            raise Undecided('the storage of DegreeRangeMap is not recognised')
    def make(self, seq):
        return StructV(self.adt, 0, (seq,))
    def seq(self, st, v):
        v = Md.rd(st, v)
        if not (isinstance(v, StructV) and v.tag == self.adt):
            raise Undecided('a degree table is expected, got %r' % (v,))
        return v.fields[self.i]

def result(v, st):
    """(c, ok value, err): c the condition for Ok"""
    if isinstance(v, IteV):
        d = st.decide(v.c)
        if d is True:
            return result(v.a, st)
        if d is False:
            return result(v.b, st)
        return v
    return v

def same_result(v, okc, okv, what, st, extra=()):
    """v is Ok(okv) exactly when okc, otherwise an error"""
    def go(v, facts):
        if not possible(facts_of(st, facts)):
            return
        if isinstance(v, IteV):
            go(v.a, facts + [(v.c, True)])
            go(v.b, facts + [(v.c, False)])
            return
        if not (isinstance(v, StructV) and v.tag == RESULT):
            raise Undecided('%s: a result is expected, got %r' % (what, v))
        if v.variant == 0:
            same(okc, True, 'whether %s succeeds rightly' % what, st, facts)
            if callable(okv):
                okv(v.fields[0], facts)
            else:
                same(v.fields[0], okv, what, st, facts)
        else:
            same(okc, False, 'whether %s is an error rightly' % what, st, facts)
    go(v, list(extra))

def C16(R):
    m = R.mir
    g = lambda n: m.inherent('DegreeRangeMap', n)
    if all(g(n) is None for n in ('new', 'get', 'grow', 'find_deg')):
        R.missing('DegreeRangeMap', 'the degree table of the Lie basis')
        return
    def tab():
        return Table(m)
    widths = list(range(1, 9)) + [11, 16, 25]
    def top(w):
        # as far as the entries (and the powers they are made of) fit the machine's integers
        d = 2
        while w ** (d + 1) < 2 ** 60 and d < 62:
            d += 1
        return d
    def interp(w, **kw):
        I = R.interp(cparam=w if isinstance(w, Poly) else lift(w), fuel=4000000, **kw)
        I.maxdepth = 600
        return I, State()
    b = g('new')
    if b is None:
        R.missing('DegreeRangeMap::new', 'DegreeRangeMap::new')
    else:
        def wider():
            yield from widths
            yield from sorted({w for c in R.limits(hi=100000, every=True) for w in (c - 1, c, c + 1)} - set(widths))
        for w in wider():
            def ob(w=w):
                T = tab()
                for d in sorted({0, 1, 2, 3, top(w)}):
                    I, st = interp(w)
                    o = run(I, b, [lift(d)], st)
                    no_panic(o, 'creating the table of width %d to degree %d' % (w, d))
                    s = T.seq(o.st, o.val)
                    same(seq_len(s), lift(d), 'the number of entries of the table of width %d created with %d' % (w, d), o.st)
                    for i in range(d):
                        same(seq_get(s, lift(i)), lift(upto(w, i)), 'entry %d of the table of width %d' % (i, w), o.st)
                return 'bounded'
            R.decide('new, width %d' % w, b, 'entry d is the number of Hall basis elements of degree at most d (Witt), for every d below the size asked for', ob, shapes=top(w))
        def sym():
            T = tab()
            D = 12 if R.thorough else 9
            N = var('N', 1, 40)
            I, st = interp(N)
            o = run(I, b, [lift(D)], st)
            no_panic(o, 'creating the table')
            s = T.seq(o.st, o.val)
            w = ZERO
            for d in range(D):
                if d:
                    w = w + ints.idiv(witt_sym(N, d), lift(d), True)
                same(seq_get(s, lift(d)), w, 'entry %d of the table' % d, o.st)
            return 'bounded'
        R.decide('new, every width', b, 'entry d is the Witt sum as a polynomial in the width, for every width at once and each degree below 9', sym, shapes=9)
    b = g('get')
    if b is None:
        R.missing('DegreeRangeMap::get', 'DegreeRangeMap::get')
    else:
        def ob():
            T = tab()
            I, st = interp(var('N', 1, None), param=True)
            n, d = var('n', 0, None), var('d', 0, 2**32 - 1)
            t = SeqAtom('t', n)
            st.mem[('in', 't')] = T.make(t)
            o = run(I, b, [RefV(('in', 't')), d], st)
            no_panic(o, 'get')
            same_result(o.val, lt(d, n), app('el', 't', d), 'the entry of a degree', o.st)
            same(T.seq(o.st, RefV(('in', 't'))), t, 'the table after get', o.st)
        R.decide('get', b, 'the entry of the degree, an error beyond the end', ob)
    b = g('grow')
    if b is None:
        R.missing('DegreeRangeMap::grow', 'DegreeRangeMap::grow')
    else:
        def ob():
            T = tab()
            for w in widened(R, (1, 2, 3, 7), around):
                for n in (0, 1, 2, 5, 7, 30):
                    for q in (0, 1, 2, 4, 5, 6, 8, 29, 30, top(w)) if n in (2, 30) else (0, 1, 2, 4, 5, 6, 8):
                        if n > top(w) + 1 or q > top(w):
                            continue
                        I, st = interp(w)
                        t = SeqList([lift(upto(w, i)) for i in range(n)])
                        st.mem[('in', 't')] = T.make(t)
                        o = run(I, b, [RefV(('in', 't')), lift(q)], st)
                        no_panic(o, 'grow')
                        same_result(o.val, True, lambda *a: None, 'growing', o.st)
                        s = T.seq(o.st, RefV(('in', 't')))
                        same(seq_len(s), lift(max(n, q + 1)), 'the number of entries after a table of %d entries has grown to degree %d' % (n, q), o.st)
                        for i in range(max(n, q + 1)):
                            same(seq_get(s, lift(i)), t.get(lift(i)) if i < n else lift(upto(w, i)), 'entry %d after a table of %d entries (width %d) has grown to degree %d' % (i, n, w, q), o.st)
            return 'bounded'
        R.decide('grow', b, 'entries that were there stay, missing entries up to the degree are added', ob, shapes=4 * 6 * 7)
    b = g('find_deg')
    if b is None:
        R.missing('DegreeRangeMap::find_deg', 'DegreeRangeMap::find_deg')
    else:
        def ob():
            T = tab()
            for n in (0, 1, 2, 3, 4, 5):
                I, st = interp(var('N', 1, None))
                k = var('k', 0, 2**64 - 1)
                # any increasing table: entry i is the sum of the first i steps
                es, acc = [], ZERO
                for i in range(n):
                    es.append(acc)
                    acc = acc + var('step%d' % i, 0, 2**20)
                st.mem[('in', 't')] = T.make(SeqList(es))
                o = run(I, b, [RefV(('in', 't')), k], st)
                no_panic(o, 'find_deg')
                okc = leq(k, es[-1]) if n else False
                want = lift(n)
                for i in reversed(range(n)):
                    want = ite(leq(k, es[i]), lift(i), want)
                same_result(o.val, okc, want, 'the degree found in a table of %d entries' % n, o.st)
            return 'bounded'
        R.decide('find_deg', b, 'the least degree whose entry is at least the key, an error if there is none', ob, shapes=6)
        def ob():
            T = tab()
            # the tables of small widths, the keys around every entry
            for w in widened(R, (1, 2, 3, 5, 6, 11), around):
                for n in (1, 2, 3, 5, 8, 13, 20, 31):
                    if w ** n > 2 ** 62:
                        continue
                    es = [upto(w, i) for i in range(n)]
                    ks = {0, 1, 2, 3} | {e + x for e in es for x in (-1, 0, 1)} | {10 ** 6}
                    for k in sorted(x for x in ks if x >= 0):
                        I, st = interp(w)
                        st.mem[('in', 't')] = T.make(SeqList([lift(x) for x in es]))
                        o = run(I, b, [RefV(('in', 't')), lift(k)], st)
                        no_panic(o, 'find_deg')
                        fit = [i for i in range(n) if es[i] >= k]
                        same_result(o.val, bool(fit), lift(fit[0]) if fit else ZERO, 'the degree of key %d, width %d, in a table of %d entries' % (k, w, n), o.st)
            return 'bounded'
        R.decide('find_deg in the tables of the Hall basis', b, 'the least degree whose entry is at least the key, an error if there is none', ob, shapes=40)

# ------------------------------------------------------------------ C17
KB, PB, SB = 2 ** 18, 2 ** 18, 2 ** 10

def C17(R):
    m = R.mir
    g = lambda n: m.inherent('HallKey', n)
    adt = next((p for p in m.adts if p.split('::')[-1] == 'HallKey'), None)
    if adt is None:
        R.missing('HallKey', 'HallKey')
        return
    N = var('N', 1, 2**32 - 1)
    def start():
        I = R.interp(cparam=N)
        return I, State()
    F = dict(key=var('key', 0, KB - 1), lp=var('lp', 0, PB - 1), rp=var('rp', 0, PB - 1), size=var('size', 0, SB - 1))
    GET = (('get_key', 'key'), ('get_lparent', 'lp'), ('get_rparent', 'rp'), ('size', 'size'))
    def put(st, v, name='k'):
        st.mem[('in', name)] = v
        return RefV(('in', name))
    def fields(I, st, ref, want, what):
        for n, f in GET:
            b = g(n)
            if b is None or want.get(f) is None:
                continue
            o = run(I, b, [ref], st)
            no_panic(o, n)
            same(o.val, want[f], '%s of %s' % (n, what), st)
    def made(I, st):
        b = g('make_key_data')
        if b is None:
            raise Skip
        o = run(I, b, [F['key'], F['lp'], F['rp'], F['size']], st)
        no_panic(o, 'make_key_data')
        v = o.val
        return v if isinstance(v, StructV) else StructV(adt, 0, (v,))
    for n in ('get_lparent', 'get_rparent', 'size', 'new', 'from_letter', 'is_valid', 'is_letter', 'to_index', 'lparent', 'parent'):
        if g(n) is None:
            R.missing('HallKey::' + n, 'HallKey::' + n)
    b = g('make_key_data')
    if b is not None:
        def ob():
            I, st = start()
            fields(I, st, put(st, made(I, st)), F, 'a key made from its fields')
        R.decide('fields', b, 'each field of a key made from a key, two parents and a size within their widths is read back unchanged, for all values', ob)
        for n, want in (('is_letter', eq(F['size'], ONE)), ('to_index', F['key'] - ONE)):
            b2 = g(n)
            if b2 is not None:
                def ob(b2=b2, n=n, want=want):
                    I, st = start()
                    if n == 'to_index':
                        st.assume(leq(ONE, F['key']))
                    r = put(st, made(I, st))
                    o = run(I, b2, [r], st)
                    no_panic(o, n)
                    same(o.val, want, n, st)
                R.decide(n, b2, 'a letter exactly when the size is one; the index is the key less one', ob)
    b = g('is_valid')
    if b is not None:
        def ob():
            I, st = start()
            for val, want in ((StructV(adt, 0, (var('data', 0, 2**64 - 1),)), neg(eq(var('data', 0, 2**64 - 1), ZERO))), (None, False)):
                if val is None:
                    if g('new') is None:
                        continue
                    o = run(I, g('new'), [], st)
                    no_panic(o, 'new')
                    val = o.val
                o = run(I, b, [put(st, val)], st)
                no_panic(o, 'is_valid')
                same(o.val, want, 'the validity of a key', st)
        R.decide('is_valid', b, 'valid exactly when it is not the empty key', ob)
    b = g('from_letter')
    if b is not None:
        def ob():
            I, st = start()
            a = var('a', 1, KB - 1)
            st.assume(leq(a, N))
            o = run(I, b, [a], st)
            no_panic(o, 'from_letter')
            r = put(st, o.val)
            fields(I, st, r, dict(key=a, lp=ZERO, rp=a, size=ONE), 'the key of a letter')
            for n, w in (('is_letter', True), ('is_valid', True), ('to_index', a - ONE)):
                if g(n):
                    o = run(I, g(n), [r], st)
                    no_panic(o, n)
                    same(o.val, w, n + ' of the key of a letter', st)
        R.decide('from_letter', b, 'that letter, no left parent, itself as right parent, size one', ob)
    hobj = next((p for p in m.adts if p.split('::')[-1] == 'HallSetObject'), None)
    for n, f in (('lparent', 'lp'), ('parent', 'rp')):
        b = g(n)
        if b is None:
            continue
        def ob(b=b, n=n, f=f):
            I, st = start()
            I.param = True
            def hook(I, ff, args, st, fr, t):
                p = ff.get('rp') or ff.get('p') or ''
                nm = p.split('::')[-1]
                if nm == 'get_hall_set':
                    ws = [x for x in ff.get('a') or () if x.get('k') in ('cparam', 'cval')]
                    if ws and ws[0].get('k') == 'cval':
                        raise Mismatch('%s looks in the Hall set of width %s, whatever the width of the key' % (n, ws[0].get('v')))
                    return StructV(hobj, 0, (StructV('hallset', 0, ()),))
                if nm in ('key_details', 'lparent_details', 'rparent_details') and args:
                    r, v = Md.lastref(st, args[0])
                    if isinstance(v, StructV) and v.tag == hobj:
                        k = Md.rd(st, args[1])
                        par = {'key_details': k, 'lparent_details': app('hall-lp', k, rng=(0, PB - 1)), 'rparent_details': app('hall-rp', k, rng=(0, PB - 1))}[nm]
                        return StructV(RESULT, 0, (tup(par, app('hall-lp', par, rng=(0, PB - 1)), app('hall-rp', par, rng=(0, PB - 1)), app('hall-size', par, rng=(0, SB - 1))),))
                return None
            I.hooks['call'] = hook
            r = put(st, made(I, st))
            o = run(I, b, [r], st)
            no_panic(o, n)
            p = F[f]
            res = put(st, o.val, 'res')
            I.hooks.pop('call')
            want = dict(key=p, lp=app('hall-lp', p, rng=(0, PB - 1)), rp=app('hall-rp', p, rng=(0, PB - 1)), size=app('hall-size', p, rng=(0, SB - 1)))
            fields(I, st, res, want, 'the %s parent of a key' % ('left' if f == 'lp' else 'right'))
        R.decide(n, b, 'the key whose number is the parent recorded in this key, with the parents and the degree the Hall set of the same width records for it', ob)

# ------------------------------------------------------------------ C20
def C20(R):
    m = R.mir
    hobj = next((a for p, a in m.adts.items() if p.split('::')[-1] == 'HallSetObject'), None)
    tr = next((t for p, t in m.traits.items() if p.split('::')[-1] == 'HallSet'), None)
    if hobj is None or tr is None:
        R.missing('HallSet', 'HallSet / HallSetObject')
        return
    # ---- the shared object
    ARGS = {'is_letter': 1, 'lparent_details': 1, 'rparent_details': 1, 'key_details': 1, 'degree_range': 1, 'grow_up': 1}
    for n in ARGS:
        b = m.method('HallSetObject', 'HallSet', n)
        if b is None:
            R.missing('HallSetObject::' + n, n)
            continue
        def ob(b=b, n=n):
            I, st = R.interp(cparam=var('N', 1, None)), State()
            st.mem[('in', 'h')] = StructV('rwlock', 0, (StructV('abshall', 0, ('H',)),))
            st.mem[('in', 'o')] = StructV(hobj['p'], 0, (StructV('arc', 0, (RefV(('in', 'h')),)),))
            k = var('k', 0, None)
            o = run(I, b, [RefV(('in', 'o')), k], st)
            no_panic(o, n)
            grown = [x for x in I.log if x[0] == 'grow_up']
            if n == 'grow_up' and len(I.log) == 1 and not grown or n != 'grow_up' and len(I.log) == 1 and I.log[0][0] != n:
                raise Mismatch('%s of a shared Hall set asks the set it holds for %s' % (n, I.log[0][0]))
            if len(grown) > (n == 'grow_up') or not I.log:
                raise Mismatch('%s of a shared Hall set %s' % (n, 'grows the set it holds %d times' % len(grown) if grown else 'does not reach the set it holds'))
            if n == 'grow_up' and grown:
                same(grown[0][1][0], k, 'the argument passed on by %s' % n, st)
            same(o.val, hall_answer(n, (k,)), 'the answer of %s' % n, st)
        R.decide('shared set: ' + n, b, 'the same query, with the same argument, of the set it holds; its answer is passed on', ob)
        def poisoned(b=b, n=n):
            I, st = R.interp(cparam=var('N', 1, None)), State()
            st.mem[('in', 'h')] = StructV('poisoned', 0, (StructV('abshall', 0, ('H',)),))
            st.mem[('in', 'o')] = StructV(hobj['p'], 0, (StructV('arc', 0, (RefV(('in', 'h')),)),))
            o = run(I, b, [RefV(('in', 'o')), var('k', 0, None)], st)
            no_panic(o, n)
            def err(v):
                if isinstance(v, IteV):
                    return err(v.a) and err(v.b)
                if not (isinstance(v, StructV) and v.tag == RESULT):
                    raise Undecided('the answer %r' % (v,))
                return v.variant == 1
            if not err(o.val):
                raise Mismatch('%s of a shared Hall set answers although a thread panicked while changing the set' % n)
        R.decide('shared set left by a panic: ' + n, b, 'an error if the lock of the set it holds is poisoned', poisoned)
    # ---- the set itself
    inner = None
    for b in m.roots:
        if (b.get('impl_trait') or '').split('::')[-1] == 'HallSet' and tyname(b['impl_self']) != 'HallSetObject':
            inner = b['impl_self']['p'] if b['impl_self']['k'] == 'adt' else None
    a = m.adts.get(inner)
    def layout():
        if a is None:
            raise Undecided('no concrete Hall set')
        pairs = degs = None
        for n, f in enumerate(a['variants'][0]['f']):
            t = f['t']
            if t['k'] == 'adt' and t['p'].split('::')[-1] == 'Vec' and t['a'][0]['k'] == 'tuple' and len(t['a'][0].get('ts', ())) == 2:
                pairs = n
            if t['k'] == 'adt' and t['p'].split('::')[-1] == 'DegreeRangeMap':
                degs = n
        if pairs is None or degs is None:
            raise Undecided('the storage of the Hall set is not recognised')
        return pairs, degs, len(a['variants'][0]['f'])
    nm = (inner or '').split('::')[-1]
    N = var('N', 1, 2**31)
    n = var('n', 0, 2**40)
    k = var('k', 0, 2**64 - 1)
    L = lambda i: app('L', i, rng=(0, 2**32 - 1))
    Rt = lambda i: app('R', i, rng=(0, 2**32 - 1))
    deg = lambda i: app('degree', i, rng=(0, 2**32 - 1))
    def start():
        pairs, degs, nf = layout()
        I, st = R.interp(cparam=N, param=True), State()
        dm = next(p for p in m.adts if p.split('::')[-1] == 'DegreeRangeMap')
        st.mem[('in', 's')] = StructV(inner, 0, [SeqAtom('set', n, lambda i: tup(L(i), Rt(i))) if x == pairs else StructV(dm, 0, (SeqAtom('table', var('tl', 0, 2**31)),)) if x == degs else
                                                 var('field%d' % x, 0, 2**31) if a['variants'][0]['f'][x]['t']['k'] == 'int' else Opaque('field') for x in range(nf)])
        def hook(I, f, args, st, fr, t):
            p = f.get('rp') or f.get('p') or ''
            if 'DegreeRangeMap' in p and p.split('::')[-1] == 'find_deg':
                q = Md.rd(st, args[1])
                c = ('b', 'indexed', q)
                return IteV(c, StructV(RESULT, 0, (deg(q),)), StructV(RESULT, 1, (Opaque('toosmall'),)))
            return None
        I.hooks['call'] = hook
        return I, st, RefV(('in', 's'))
    def known(st, *ks):
        """the degree of every stored key is in the table (the set and its table are built together)"""
        for q in ks:
            st.assume(disj(neg(lt(q, n)), ('b', 'indexed', q)))
    def details(name, parent):
        b = m.method(nm, 'HallSet', name)
        if b is None:
            R.missing('HallSet::' + name, name)
            return
        def ob():
            I, st, s = start()
            p = k if parent is None else parent(k)
            ok = lt(k, n)
            # contents: parents of stored keys are stored keys, and stored keys have a degree
            for case in (True, False):
                s2 = st.copy()
                if not s2.assume(ok, case):
                    continue
                if case:
                    s2.assume(lt(p, n))
                    s2.assume(('b', 'indexed', p))
                o = run(I, b, [s, k], s2)
                no_panic(o, name)
                same_result(o.val, case, tup(p, L(p), Rt(p), deg(p)), name, o.st)
        R.decide(name, b, 'the key, its two recorded parents and its degree; an error for a key that is not there', ob)
    details('key_details', None)
    details('lparent_details', L)
    details('rparent_details', Rt)
    b = m.method(nm, 'HallSet', 'is_letter')
    if b is None:
        R.missing('HallSet::is_letter', 'is_letter')
    else:
        def ob():
            I, st, s = start()
            o = run(I, b, [s, k], st)
            no_panic(o, 'is_letter')
            same_result(o.val, True, conj(leq(ONE, k), leq(k, N)), 'the letter test', o.st)
        R.decide('is_letter', b, 'exactly the keys from 1 to the width', ob)
    b = m.method(nm, 'HallSet', 'degree_range')
    if b is None:
        R.missing('HallSet::degree_range', 'degree_range')
    else:
        def ob():
            I, st, s = start()
            d = var('d', 0, 2**31)
            o = run(I, b, [s, d], st)
            no_panic(o, 'degree_range')
            tl = var('tl', 0, 2**31)
            same_result(o.val, lt(d + ONE, tl), tup(app('el', 'table', d), app('el', 'table', d + ONE)), 'the range of a degree', o.st)
        R.decide('degree_range', b, 'from the entry of the degree to the next; an error beyond the table', ob)
    b = m.inherent(nm, 'new')
    if b is not None:
        def ob():
            for w in list(range(1, 13)) + [15, 16, 20, 21, 25, 40, 200]:
                I, st = R.interp(cparam=lift(w), fuel=4000000), State()
                I.maxdepth = 600
                o = run(I, b, [], st)
                no_panic(o, 'making a Hall set of width %d' % w)
                st = o.st
                st.mem[('in', 's')] = o.val
                s = RefV(('in', 's'))
                what = 'a new Hall set of width %d' % w
                q = m.method(nm, 'HallSet', 'key_details')
                if q is not None:
                    o = run(I, q, [s, ZERO], st)
                    no_panic(o, 'key_details')
                    same_result(o.val, True, tup(ZERO, ZERO, ZERO, ZERO), 'asking %s for the null key' % what, o.st)
                    for kk in (1, w, w + 1):
                        o = run(I, q, [s, lift(kk)], st)
                        no_panic(o, 'key_details')
                        if not (isinstance(o.val, StructV) and o.val.tag == RESULT):
                            raise Undecided('a result is expected, got %r' % (o.val,))
                        if o.val.variant == 0:
                            # a set that starts with its letters
                            if kk > w:
                                raise Mismatch('%s has a key %d' % (what, kk))
                            same(o.val.fields[0], tup(lift(kk), ZERO, lift(kk), ONE), 'the details of letter %d in %s' % (kk, what), o.st)
                q = m.method(nm, 'HallSet', 'degree_range')
                if q is not None:
                    d = 0
                    while w ** (d + 2) < 2 ** 60 and d < 40:
                        o = run(I, q, [s, lift(d)], st)
                        no_panic(o, 'degree_range')
                        v = o.val
                        if not (isinstance(v, StructV) and v.tag == RESULT):
                            raise Undecided('a result is expected, got %r' % (v,))
                        if v.variant == 1:
                            if d == 0:
                                raise Mismatch('%s does not know the range of degree 0' % what)
                            break
                        same(v.fields[0], tup(lift(upto(w, d)), lift(upto(w, d + 1))), 'the range of degree %d in %s' % (d, what), o.st)
                        d += 1
            return 'bounded'
        R.decide('a new Hall set', b, 'it holds the null key with null parents and degree zero, and its degree table is the one of its width (Witt)', ob, shapes=19)
    b = m.inherent(nm, 'get_parents')
    if b is not None:
        def ob():
            I, st, s = start()
            o = run(I, b, [s, k], st)
            no_panic(o, 'get_parents')
            for case in (True, False):
                s2 = o.st.copy()
                if not s2.assume(lt(k, n), case):
                    continue
                v = o.val
                while isinstance(v, IteV):
                    c = s2.decide(v.c)
                    if not isinstance(c, bool):
                        raise Undecided('gated option')
                    v = v.a if c else v.b
                if not (isinstance(v, StructV) and v.tag == OPTION):
                    raise Undecided('option expected')
                if v.variant != (1 if case else 0):
                    feasible(facts_of(s2), 'the parents of a key that is %sthere are %r' % ('' if case else 'not ', v))
                elif case:
                    x = Md.rd(s2, v.fields[0])
                    same(x, tup(L(k), Rt(k)), 'the parents of a key', s2)
        R.decide('get_parents', b, 'the recorded pair, none beyond the end', ob)
