"""Models of the standard library and contracts of the crate's own traits, over abstract values.

A model is found by the called function's name and acts on the abstract values it is given, so it does
not matter which spelling of an operation (loop, iterator adapter, slice method) the source uses."""
from .terms import *
from .values import *
from . import ints, floats
from .interp import Diverged, State, merge_states, fresh

ENTRY = 'std::collections::hash::map::Entry'
RANGES = {'Range', 'RangeInclusive', 'RangeTo', 'RangeFrom', 'RangeFull', 'RangeToInclusive'}

class Panicked(Exception):
    pass

def fail(I, st, kind, fr, t):
    I.panic(st, kind, fr, t or {})
    raise Diverged()

def need(I, st, c, kind, fr, t):
    """continue only where c holds; a panic of this kind is recorded for the other case"""
    c = st.decide(c)
    if c is True:
        return
    if c is False:
        fail(I, st, kind, fr, t)
    s2 = st.copy()
    if s2.assume(neg(c)):
        I.panic(s2, kind, fr, t or {})
    st.assume(c)

def heap(st, v, what='heap'):
    loc = (what, fresh(what))
    st.mem[loc] = v
    return RefV(loc)

def rd(st, v):
    """the value behind any number of references"""
    n = 0
    while isinstance(v, RefV) or (isinstance(v, IteV) and refish(v)):
        v = st.read(v)
        n += 1
        if n > 20:
            raise Undecided('reference chain')
    if v is UNDEF and n:
        raise Undecided('read of a place without a value')
    return v

def refish(v):
    while isinstance(v, IteV):
        v = v.a if v.a is not UNDEF else v.b
    return isinstance(v, RefV)

def lastref(st, v):
    """the reference to the first non-reference value"""
    ref = None
    while isinstance(v, RefV) or (isinstance(v, IteV) and refish(v)):
        ref, v = v, st.read(v)
    return ref, v

def ext(ref, *ps):
    if isinstance(ref, IteV):
        return IteV(ref.c, ext(ref.a, *ps), ext(ref.b, *ps))
    return ref.ext(*ps)

def gate(st, v, f):
    """apply f below the gates of v"""
    if isinstance(v, IteV):
        d = st.decide(v.c)
        if d is True:
            return gate(st, v.a, f)
        if d is False:
            return gate(st, v.b, f)
        return merge(v.c, gate(st, v.a, f), gate(st, v.b, f))
    return f(v)

def branch(I, st, c, fa, fb):
    """value of: if c then fa(state) else fb(state), with the effects joined"""
    c = st.decide(c)
    if c is True:
        return fa(st)
    if c is False:
        return fb(st)
    res = []
    for cc, f in ((c, fa), (neg(c), fb)):
        s = st.copy()
        if not s.assume(cc):
            continue
        try:
            v = f(s)
        except Diverged:
            continue
        res.append((cc, s, v))
    if not res:
        raise Diverged()
    if len(res) == 1:
        cc, s, v = res[0]
        st.become(s)
        return v
    m = merge_states(c, res[0][1], res[1][1], st)
    v = merge(c, res[0][2], res[1][2])
    st.become(m)
    return v

def ungate(I, st, v, f):
    """f(state, plain value) below the gates of v with state effects"""
    if isinstance(v, IteV):
        return branch(I, st, v.c, lambda s: ungate(I, s, v.a, f), lambda s: ungate(I, s, v.b, f))
    return f(st, v)

def num(I, v):
    return I.num(v)

# ------------------------------------------------------------------ types
def strip(t):
    while t and t.get('k') == 'ref':
        t = t['t']
    return t or {}

def short(f):
    return (f.get('rp') or f['p']).split('::')[-1]

# ------------------------------------------------------------------ ranges
def as_range(I, st, v, length):
    """(lo, hi) of an index value that is a range, or None"""
    if not isinstance(v, StructV) or not isinstance(v.tag, str):
        return None
    n = v.tag.split('::')[-1]
    if n not in RANGES:
        return None
    if n == 'Range':
        return v.fields[0], v.fields[1]
    if n == 'RangeInclusive':
        return v.fields[0], v.fields[1] + 1
    if n == 'RangeTo':
        return ZERO, v.fields[0]
    if n == 'RangeToInclusive':
        return ZERO, v.fields[0] + 1
    if n == 'RangeFrom':
        return v.fields[0], length
    return ZERO, length

def index(I, st, ref, iv, fr, t, checked=False):
    """reference to an element or subslice; checked: Option result"""
    def go(s, iv):
        r, v = lastref(s, ref)
        n = seq_len(v)
        rg = as_range(I, s, iv, n)
        if rg is None:
            c = conj(leq(0, iv), lt(iv, n))
            out = lambda: ext(r, ('ix', iv))
        else:
            lo, hi = rg
            c = conj(leq(lo, hi), leq(hi, n))
            out = lambda: ext(r, ('rng', lo, hi))
        if checked:
            c = s.decide(c)
            if c is True:
                return some(out())
            if c is False:
                return NONE
            return IteV(c, some(out()), NONE)
        need(I, s, c, 'index out of bounds', fr, t)
        return out()
    v = iv
    if isinstance(v, RefV):
        v = rd(st, v)
    return ungate(I, st, v, go)

# ------------------------------------------------------------------ iterators
def is_iter(v):
    return isinstance(v, IterV) or (isinstance(v, StructV) and isinstance(v.tag, str) and (v.tag.startswith('it:')))

def slice_iter(I, st, ref):
    r, v = lastref(st, ref)
    n = seq_len(v)
    return IterV(ZERO, n, lambda I, s, k: ext(r, ('ix', k)), 'slice')

def to_iter(I, st, v, f=None, fr=None, t=None):
    """IntoIterator::into_iter"""
    if is_iter(v):
        return v
    if isinstance(v, IteV) and not refish(v):
        d = st.decide(v.c)
        if isinstance(d, bool):
            return to_iter(I, st, v.a if d else v.b, f, fr, t)
        raise Undecided('gated iterator')
    if isinstance(v, StructV) and isinstance(v.tag, str):
        n = v.tag.split('::')[-1]
        if n == 'Range':
            a, b = v.fields[0], v.fields[1]
            return IterV(ZERO, b - a, lambda I, s, k: a + k, 'range')
        if n == 'RangeInclusive':
            a, b = v.fields[0], v.fields[1]
            return IterV(ZERO, b - a + 1, lambda I, s, k: a + k, 'range')
        if n == 'RangeFrom':
            a = v.fields[0]
            return IterV(ZERO, (), lambda I, s, k: a + k, 'range')
        if v.tag == OPTION:
            if v.variant == 0:
                return IterV(ZERO, ZERO, lambda I, s, k: UNDEF)
            x = v.fields[0]
            return IterV(ZERO, ONE, lambda I, s, k: x)
        if v.tag in I.mir.adts:
            return v                     # a crate type that is its own iterator
    if isinstance(v, SeqV):
        return IterV(ZERO, v.len, lambda I, s, k: seq_get(v, k), 'vec')
    if isinstance(v, MapV):
        n, key = v.keys_indexed()
        return IterV(ZERO, n, lambda I, s, k: tup(key(k), v.val(key(k))), 'map')
    if refish(v):
        r, x = lastref(st, v)
        if is_iter(x):
            return StructV('it:ref', 0, (r,))
        if isinstance(x, MapV):
            return map_iter(I, st, r, x)
        if isinstance(x, IteV):
            d = st.decide(x.c)
            if not isinstance(d, bool) and not isinstance(x.a, SeqV):
                raise Undecided('gated container')
        if isinstance(x, StructV) and isinstance(x.tag, str) and x.tag in I.mir.adts:
            return StructV('it:ref', 0, (r,))
        return slice_iter(I, st, r)
    raise Undecided('iteration over %r' % (v,))

def map_iter(I, st, r, m, what='kv'):
    n, key = m.keys_indexed()
    if I.reverse_maps and n.as_int() is not None:
        k0 = key
        key = lambda k: k0(n - 1 - k)
    def item(I, s, k):
        kk = key(k)
        kref = RefV(('mapkey', kk))
        s.mem[('mapkey', kk)] = kk
        vref = ext(r, ('mk', kk))
        return tup(kref, vref) if what == 'kv' else kref if what == 'k' else vref
    return IterV(ZERO, n, item, 'map')

def next_(I, st, ref, fr=None, t=None):
    """Iterator::next on the iterator stored at ref"""
    v = st.read(ref)
    if isinstance(v, IteV):
        d = st.decide(v.c)
        if isinstance(d, bool):
            v = v.a if d else v.b
            st.write(ref, v)
        else:
            raise Undecided('gated iterator')
    if isinstance(v, RefV):
        return next_(I, st, v, fr, t)
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.split('::')[-1] in RANGES:
        # ranges are their own iterators
        if v.tag.split('::')[-1] == 'Range':
            a, b = v.fields
            def yes(s):
                s.write(ref, StructV(v.tag, v.variant, (a + 1, b)))
                return some(a)
            return branch(I, st, lt(a, b), yes, lambda s: NONE)
        v = to_iter(I, st, v)
        st.write(ref, v)
    if isinstance(v, IterV):
        def yes(s):
            x = v.item(I, s, v.pos)
            cur = s.read(ref)
            s.write(ref, v.at(v.pos + 1))
            return some(x)
        def no(s):
            s.write(ref, v.at(v.pos + 1))
            return NONE
        return branch(I, st, v.more(), yes, no)
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.startswith('it:'):
        k = v.tag[3:]
        if k == 'ref':
            return next_(I, st, v.fields[0], fr, t)
        if k == 'map':
            o = next_(I, st, ext(ref, ('f', 0)), fr, t)
            return ungate(I, st, o, lambda s, o: NONE if o.variant == 0 else
                          some(I.callv(ext(ref, ('f', 1)), [o.fields[0]], s)))
        if k == 'zip':
            def two(s, o):
                if o.variant == 0:
                    return NONE
                p = next_(I, s, ext(ref, ('f', 1)), fr, t)
                return ungate(I, s, p, lambda s2, p: NONE if p.variant == 0 else some(tup(o.fields[0], p.fields[0])))
            return ungate(I, st, next_(I, st, ext(ref, ('f', 0)), fr, t), two)
        if k == 'enum':
            o = next_(I, st, ext(ref, ('f', 0)), fr, t)
            def en(s, o):
                if o.variant == 0:
                    return NONE
                n = s.read(ext(ref, ('f', 1)))
                s.write(ext(ref, ('f', 1)), n + 1)
                return some(tup(n, o.fields[0]))
            return ungate(I, st, o, en)
        if k == 'take':
            n = st.read(ext(ref, ('f', 1)))
            def go(s):
                s.write(ext(ref, ('f', 1)), n - 1)
                return next_(I, s, ext(ref, ('f', 0)), fr, t)
            return branch(I, st, lt(0, n), go, lambda s: NONE)
        if k == 'cloned':
            o = next_(I, st, ext(ref, ('f', 0)), fr, t)
            return ungate(I, st, o, lambda s, o: NONE if o.variant == 0 else some(rd(s, o.fields[0])))
        if k in ('filter', 'filter_map', 'take_while', 'skip_while'):
            return pick(I, st, ref, k, fr, t, 0)
        if k in ('map_while', 'scan'):
            if len(st.read(ref).fields) > 3 and st.read(ref).fields[3] is True:
                return NONE
            o = next_(I, st, ext(ref, ('f', 0)), fr, t)
            def mw(s, o):
                if o.variant == 0:
                    return NONE
                a = [o.fields[0]] if k == 'map_while' else [ext(ref, ('f', 2)), o.fields[0]]
                return I.callv(ext(ref, ('f', 1)), a, s)
            return ungate(I, st, o, mw)
        if k == 'flat':
            return flat_next(I, st, ref, fr, t, 0)
        if k == 'chain':
            def first(s):
                o = next_(I, s, ext(ref, ('f', 0)), fr, t)
                def done(s2, o):
                    if o.variant == 1:
                        return o
                    s2.write(ext(ref, ('f', 2)), True)
                    return next_(I, s2, ext(ref, ('f', 1)), fr, t)
                return ungate(I, s, o, done)
            return branch(I, st, st.read(ext(ref, ('f', 2))), lambda s: next_(I, s, ext(ref, ('f', 1)), fr, t), first)
        if k == 'from_fn':
            return I.callv(ext(ref, ('f', 0)), [], st)
        if k == 'successors':
            cur = st.read(ext(ref, ('f', 0)))
            def adv(s, o):
                if o.variant == 0:
                    return NONE
                s.write(ext(ref, ('f', 0)), I.callv(ext(ref, ('f', 1)), [heap(s, o.fields[0], 'tmp')], s))
                return o
            return ungate(I, st, cur, adv)
        raise Undecided('iterator %s' % k)
    # a crate type with its own Iterator impl
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag in I.mir.adts:
        b = I.mir.method(v.tag.split('::')[-1], 'Iterator', 'next')
        if b:
            return I.call_body(b, [ref], st)
    if isinstance(v, StructV) and v.tag == 'absiter':
        raise Undecided('abstract iterator')
    raise Undecided('next of %r' % (v,))

def pick(I, st, ref, k, fr, t, depth):
    """next element of a filtering adapter: skips elements whose test fails"""
    if depth > 64:
        raise Undecided('filter')
    if k == 'take_while' and len(st.read(ref).fields) > 2 and st.read(ref).fields[2] is True:
        return NONE
    if k == 'skip_while' and len(st.read(ref).fields) > 2:
        return next_(I, st, ext(ref, ('f', 0)), fr, t)
    o = next_(I, st, ext(ref, ('f', 0)), fr, t)
    def test(s, o):
        if o.variant == 0:
            return NONE
        x = o.fields[0]
        if k == 'filter_map':
            r = I.callv(ext(ref, ('f', 1)), [x], s)
            return ungate(I, s, r, lambda s2, r: r if r.variant == 1 else pick(I, s2, ref, k, fr, t, depth + 1))
        c = I.callv(ext(ref, ('f', 1)), [heap(s, x, 'tmp')], s)
        if k == 'filter':
            return branch(I, s, c, lambda s2: some(x), lambda s2: pick(I, s2, ref, k, fr, t, depth + 1))
        if k == 'take_while':
            def stop(s2):
                v = s2.read(ref)
                s2.write(ref, StructV(v.tag, 0, v.fields[:2] + (True,)))
                return NONE
            return branch(I, s, c, lambda s2: some(x), stop)
        def first(s2):
            v = s2.read(ref)
            s2.write(ref, StructV(v.tag, 0, v.fields[:2] + (True,)))
            return some(x)
        return branch(I, s, c, lambda s2: pick(I, s2, ref, k, fr, t, depth + 1), first)
    return ungate(I, st, o, test)

def flat_next(I, st, ref, fr, t, depth):
    """next element of a flattening adapter: (outer, current inner iterator or None)"""
    if depth > 64:
        raise Undecided('flatten')
    def outer(s):
        o = next_(I, s, ext(ref, ('f', 0)), fr, t)
        def go(s2, o):
            if o.variant == 0:
                return NONE
            inner = to_iter(I, s2, o.fields[0], None, fr, t)
            s2.write(ext(ref, ('f', 1)), some(inner))
            return flat_next(I, s2, ref, fr, t, depth + 1)
        return ungate(I, s, o, go)
    def cur(s, c):
        if c.variant == 0:
            return outer(s)
        o = next_(I, s, ext(ref, ('f', 1), ('v', 1), ('f', 0)), fr, t)
        def got(s2, o):
            if o.variant == 1:
                return o
            s2.write(ext(ref, ('f', 1)), NONE)
            return outer(s2)
        return ungate(I, s, o, got)
    return ungate(I, st, st.read(ext(ref, ('f', 1))), cur)

def each(I, st, it, f):
    """run f(state, item) for every item (the loop is driven like a loop of the source)"""
    ref = heap(st, it, 'iter')
    def iterate(s):
        o = next_(I, s, ref)
        outs = []
        def split(o, s, c):
            if isinstance(o, IteV):
                for cc, x in ((o.c, o.a), (neg(o.c), o.b)):
                    s2 = s.copy()
                    if s2.assume(cc):
                        split(x, s2, conj(c, cc))
                return
            if o.variant == 0:
                outs.append((c, 'exit', s))
                return
            try:
                stop = f(s, o.fields[0])
            except Diverged:
                return
            if stop is None:
                outs.append((c, 'back', s))
            elif stop is True:
                outs.append((c, 'exit', s))
            else:
                s2 = s.copy()
                if s2.assume(stop):
                    outs.append((conj(c, stop), 'exit', s2))
                s3 = s.copy()
                if s3.assume(neg(stop)):
                    outs.append((conj(c, neg(stop)), 'back', s3))
        split(o, s, True)
        return outs
    exits = I.drive(st.copy(), iterate)
    if not exits:
        raise Diverged()
    res = [(c, s) for c, _, s in exits]
    I.join(res, st)

def adapt(I, st, f, args, fr, t):
    """iterator adapters"""
    name = f.get('m') or short(f)
    it = args[0]
    if name != 'by_ref':
        it = to_iter(I, st, it, f, fr, t)
    if name == 'by_ref':
        return it
    if name in ('fuse', 'into_iter', 'iter', 'peekable'):
        return it
    if isinstance(it, IterV):
        p0 = it.pos
        if name == 'map':
            fn = heap(st, args[1], 'fn')
            return IterV(it.pos, it.ends, lambda I, s, k: I.callv(fn, [it.item(I, s, k)], s), 'map')
        if name == 'zip':
            o = to_iter(I, st, args[1], f, fr, t)
            if isinstance(o, IterV):
                q0 = o.pos
                return IterV(ZERO, [e - p0 for e in it.ends] + [e - q0 for e in o.ends],
                             lambda I, s, k: tup(it.item(I, s, p0 + k), o.item(I, s, q0 + k)), 'zip')
            return StructV('it:zip', 0, (it, o))
        if name == 'rev':
            e = it.end
            return IterV(ZERO, left(st, it), lambda I, s, k: it.item(I, s, e - 1 - k), 'rev')
        if name == 'enumerate':
            return IterV(ZERO, [e - p0 for e in it.ends], lambda I, s, k: tup(k, it.item(I, s, p0 + k)), 'enum')
        if name == 'take':
            return IterV(it.pos, list(it.ends) + [p0 + args[1]], it.item, 'take')
        if name == 'skip':
            return IterV(p0 + args[1], it.ends, it.item, 'skip')
        if name == 'step_by':
            n = args[1].as_int()
            e = it.end
            if n is None or n < 1:
                raise Undecided('step_by')
            cnt = ints.idiv(e - p0 + (n - 1), lift(n))
            return IterV(ZERO, cnt, lambda I, s, k: it.item(I, s, p0 + k * n), 'step')
        if name in ('cloned', 'copied'):
            return IterV(it.pos, it.ends, lambda I, s, k: rd(s, it.item(I, s, k)), 'cloned')
        if name == 'chain':
            o = to_iter(I, st, args[1], f, fr, t)
            if isinstance(o, IterV) and not it.ends:
                return it
            if isinstance(o, IterV):
                na, q0 = left(st, it), o.pos
                return IterV(ZERO, [na + left(st, o)] if o.ends else [], lambda I, s, k: branch(I, s, lt(k, na), lambda s2: it.item(I, s2, p0 + k),
                                                                    lambda s2: o.item(I, s2, q0 + k - na)), 'chain')
        if name == 'inspect':
            fn = heap(st, args[1], 'fn')
            def item(I, s, k):
                x = it.item(I, s, k)
                I.callv(fn, [heap(s, x, 'tmp')], s)
                return x
            return IterV(it.pos, it.ends, item, 'inspect')
    if name == 'map_while':
        return StructV('it:map_while', 0, (it, args[1]))
    if name == 'scan':
        return StructV('it:scan', 0, (it, args[2], args[1]))
    if name in ('flat_map', 'flatten'):
        if name == 'flat_map':
            it = adapt(I, st, dict(f, m='map'), [it, args[1]], fr, t)
        return StructV('it:flat', 0, (it, NONE))
    if name == 'chain':
        return StructV('it:chain', 0, (it, to_iter(I, st, args[1], f, fr, t), False))
    if name == 'map':
        return StructV('it:map', 0, (it, args[1]))
    if name == 'zip':
        return StructV('it:zip', 0, (it, to_iter(I, st, args[1], f, fr, t)))
    if name == 'enumerate':
        return StructV('it:enum', 0, (it, ZERO))
    if name == 'take':
        return StructV('it:take', 0, (it, args[1]))
    if name in ('cloned', 'copied'):
        return StructV('it:cloned', 0, (it,))
    if name in ('filter', 'filter_map', 'take_while', 'skip_while'):
        return StructV('it:' + name, 0, (it, args[1]))
    if name == 'skip':
        n = args[1].as_int()
        if n is not None:
            ref = heap(st, it, 'iter')
            for _ in range(n):
                next_(I, st, ref, fr, t)
            return st.read(ref)
    raise Undecided('adapter %s' % name)

def iter_arg(I, st, v, f, fr, t):
    """an iterator passed by value or by mutable reference to a consumer"""
    if refish(v):
        r, x = lastref(st, v)
        return StructV('it:ref', 0, (r,))
    return to_iter(I, st, v, f, fr, t)

def consume(I, st, f, args, fr, t):
    name = f.get('m') or short(f)
    it = iter_arg(I, st, args[0], f, fr, t)
    if name == 'for_each':
        fn = heap(st, args[1], 'fn')
        each(I, st, it, lambda s, x: I.callv(fn, [x], s) and None)
        return UNIT
    if name == 'fold':
        acc = heap(st, args[1], 'acc')
        fn = heap(st, args[2], 'fn')
        def f1(s, x):
            s.write(acc, I.callv(fn, [s.read(acc), x], s))
        each(I, st, it, f1)
        return st.read(acc)
    if name in ('sum', 'product'):
        acc = heap(st, ZERO if name == 'sum' else ONE, 'acc')
        def f2(s, x):
            x = num(I, rd(s, x))
            a = s.read(acc)
            s.write(acc, a + x if name == 'sum' else a * x)
        each(I, st, it, f2)
        return st.read(acc)
    if name == 'count':
        if isinstance(it, IterV):
            return left(st, it)
        acc = heap(st, ZERO, 'acc')
        each(I, st, it, lambda s, x: s.write(acc, s.read(acc) + 1))
        return st.read(acc)
    if name == 'len':
        if isinstance(it, IterV):
            return left(st, it)
        if isinstance(it, StructV) and it.tag == 'it:ref':
            v = rd(st, it.fields[0])
            return consume(I, st, f, [v], fr, t)
    if name in ('all', 'any'):
        acc = heap(st, name == 'all', 'acc')
        fn = heap(st, args[1], 'fn')
        def f3(s, x):
            c = I.callv(fn, [x], s)
            a = s.read(acc)
            s.write(acc, conj(a, c) if name == 'all' else disj(a, c))
            return neg(c) if name == 'all' else c
        each(I, st, it, f3)
        return st.read(acc)
    if name in ('find', 'position', 'find_map'):
        acc = heap(st, NONE, 'acc')
        fn = heap(st, args[1], 'fn')
        cnt = heap(st, ZERO, 'acc')
        def f4(s, x):
            i = s.read(cnt)
            s.write(cnt, i + 1)
            if name == 'find_map':
                o = I.callv(fn, [x], s)
                c = present(s, o)
                s.write(acc, merge(c, o, s.read(acc)))
                return c
            c = I.callv(fn, [heap(s, x, 'tmp') if name == 'find' else x], s)
            old = s.read(acc)
            s.write(acc, merge(c, some(x if name == 'find' else i), old))
            return c
        each(I, st, it, f4)
        return st.read(acc)
    if name in ('max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by'):
        acc = heap(st, NONE, 'acc')
        fn = heap(st, args[1], 'fn') if len(args) > 1 else None
        def f5(s, x):
            old = s.read(acc)
            if isinstance(old, IteV):
                raise Undecided('max')
            if old.variant == 0:
                s.write(acc, some(x))
                return
            o = old.fields[0]
            if name.endswith('_key'):
                c = compare(I, s, I.callv(fn, [heap(s, o, 'tmp')], s), I.callv(fn, [heap(s, x, 'tmp')], s))
            elif fn is not None:
                c = I.callv(fn, [heap(s, o, 'tmp'), heap(s, x, 'tmp')], s)
            else:
                c = compare(I, s, o, x)
            gt = ord_is(s, c, 2)
            s.write(acc, some(merge(gt, o, x) if name.startswith('max') else merge(gt, x, o)))
        each(I, st, it, f5)
        return st.read(acc)
    if name in ('rfold', 'rfind', 'rposition'):
        if name != 'rfold' and isinstance(args[0], RefV):
            # by reference: what is left afterwards is not followed
            r, v = lastref(st, args[0])
            if isinstance(v, (IterV, StructV)):
                it = v
                st.write(r, Opaque(('iterator', 'partly consumed')))
        if name == 'rposition' and isinstance(it, IterV):
            n = it.end - it.pos
            o = consume(I, st, dict(f, m='position'), [adapt(I, st, dict(f, m='rev'), [it], fr, t)] + args[1:], fr, t)
            return gate(st, o, lambda o: NONE if o.variant == 0 else some(n - 1 - o.fields[0]))
        return consume(I, st, dict(f, m=name[1:]), [adapt(I, st, dict(f, m='rev'), [it], fr, t)] + args[1:], fr, t)
    if name == 'reduce':
        acc = heap(st, NONE, 'acc')
        fn = heap(st, args[1], 'fn')
        def red(s, x):
            s.write(acc, ungate(I, s, s.read(acc), lambda s2, o: some(x) if o.variant == 0 else some(I.callv(fn, [o.fields[0], x], s2))))
        each(I, st, it, red)
        return st.read(acc)
    if name in ('try_fold', 'try_for_each'):
        fold = name == 'try_fold'
        fn = heap(st, args[2 if fold else 1], 'fn')
        rt = fr_ret(fr, t)
        acc = heap(st, args[1] if fold else UNIT, 'acc')
        bad = heap(st, NONE, 'acc')
        kind = heap(st, NONE, 'acc')
        def tf(s, x):
            r = I.callv(fn, [s.read(acc), x] if fold else [x], s)
            y = r
            while isinstance(y, IteV):
                y = y.a
            if y.tag not in (OPTION, RESULT, CF):
                raise Undecided(name)
            good = {OPTION: 1, RESULT: 0, CF: 0}[y.tag]
            c = gate(s, r, lambda o: o.variant == good)
            s.write(kind, some(StructV(y.tag, good, ())))
            s.write(acc, gate(s, r, lambda o: o.fields[0] if o.variant == good else s.read(acc)))
            s.write(bad, gate(s, r, lambda o: NONE if o.variant == good else some(o)))
            return neg(c)
        each(I, st, it, tf)
        a = st.read(acc)
        def fin(s, o):
            if o.variant == 1:
                return o.fields[0]
            def mk(s2, k):
                if k.variant == 0:
                    if rt is None:
                        raise Undecided(name)
                    return StructV(rt[0], rt[1], (a,))
                w = k.fields[0]
                return StructV(w.tag, w.variant, (a,))
            return ungate(I, s, s.read(kind), mk)
        return ungate(I, st, st.read(bad), fin)
    if name == 'partition':
        fn = heap(st, args[1], 'fn')
        a, b = heap(st, SeqList(()), 'acc'), heap(st, SeqList(()), 'acc')
        def pt(s, x):
            c = I.callv(fn, [heap(s, x, 'tmp')], s)
            def put(r):
                def g(s2):
                    s2.write(r, gate(s2, s2.read(r), lambda q: seq_cat(q, SeqList([x]))))
                    return UNIT
                return g
            branch(I, s, c, put(a), put(b))
        each(I, st, it, pt)
        return tup(st.read(a), st.read(b))
    if name == 'last':
        acc = heap(st, NONE, 'acc')
        each(I, st, it, lambda s, x: s.write(acc, some(x)))
        return st.read(acc)
    if name == 'nth':
        ref = lastref(st, args[0])[0] or heap(st, it, 'iter')
        n = args[1].as_int()
        if n is None:
            raise Undecided('nth')
        for _ in range(n):
            next_(I, st, ref, fr, t)
        return next_(I, st, ref, fr, t)
    if name == 'collect':
        tgt = strip((f.get('a') or [{}])[-1])
        p = tgt.get('p', '')
        if p.endswith('Vec') or tgt.get('k') == 'slice' or p.endswith('Box'):
            return collect_vec(I, st, it)
        if p.endswith('HashMap') or p.endswith('BTreeMap'):
            acc = heap(st, EMPTY_MAP if p.endswith('HashMap') else SortedMap(()), 'acc')
            each(I, st, it, lambda s, x: s.write(acc, map_op(s.read(acc), lambda m: m.set(x.fields[0], x.fields[1]))))
            return st.read(acc)
        raise Undecided('collect into %s' % p)
    if name in ('eq', 'ne'):
        a = collect_vec(I, st, it)
        b = collect_vec(I, st, iter_arg(I, st, args[1], f, fr, t))
        c = I.equal(a, b, st)
        return c if name == 'eq' else neg(c)
    if name == 'unzip':
        xs = collect_vec(I, st, it)
        if isinstance(xs, SeqList):
            return tup(SeqList([x.fields[0] for x in xs.items]), SeqList([x.fields[1] for x in xs.items]))
    raise Undecided('consumer %s' % name)

def present(st, o):
    return gate(st, o, lambda o: o.variant == 1)

def fr_ret(fr, t):
    """(tag, good variant) of the call's result type, when it can be told"""
    try:
        ty = fr.body['locals'][t['dest']['l']]
        ty = strip(ty.get('ty', ty))
        for tag, g in ((OPTION, 1), (RESULT, 0), (CF, 0)):
            if ty.get('p') == tag:
                return tag, g
    except Exception:
        pass
    return None

def left(st, it):
    """how many items an iterator with a known end still has (none, when its start was moved past its end)"""
    n = it.end - it.pos
    if st.decide(leq(0, n)) is True:
        return n
    return pmax(n, ZERO)

def collect_vec(I, st, it):
    if isinstance(it, IterV) and I.param and (it.end - it.pos).as_int() is None:
        n, p0 = left(st, it), it.pos
        base = st.copy()
        def get(i):
            s = base.copy()
            s.assume(leq(0, i))
            s.assume(lt(i, n))
            return it.item(I, s, p0 + i)
        return SeqFn(n, get)
    acc = heap(st, SeqList(()), 'acc')
    def push(s, x):
        s.write(acc, seq_cat(s.read(acc), SeqList([x])))
    each(I, st, it, push)
    return st.read(acc)

# ------------------------------------------------------------------ comparison
def compare(I, st, a, b):
    a, b = rd(st, a), rd(st, b)
    if is_cond(a):
        a = I.num(a)
    if is_cond(b):
        b = I.num(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return I.cmp3(a, b)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.tag == b.tag:
        if isinstance(a.tag, str) and a.tag.endswith('cmp::Reverse'):
            return compare(I, st, b.fields[0], a.fields[0])
        if isinstance(a.tag, str) and a.tag in I.mir.adts:
            body = I.mir.method(a.tag.split('::')[-1], 'Ord', 'cmp')
            if not body:
                raise Undecided('comparison of %s' % a.tag)
            return I.call_body(body, [heap(st, a, 'tmp'), heap(st, b, 'tmp')], st)
        if a.variant != b.variant:
            return StructV(ORDERING, 0 if a.variant < b.variant else 2, ())
        r = StructV(ORDERING, 1, ())
        for x, y in reversed(list(zip(a.fields, b.fields))):
            c = compare(I, st, x, y)
            r = merge(ord_is(st, c, 1), r, c)
        return r
    if isinstance(a, SeqList) and isinstance(b, SeqList):
        r = I.cmp3(a.len, b.len)
        for x, y in reversed(list(zip(a.items, b.items))):
            c = compare(I, st, x, y)
            r = merge(ord_is(st, c, 1), r, c)
        return r
    raise Undecided('comparison of %r' % (a,))

def ord_is(st, c, variant):
    """condition that the Ordering value is this variant (0 Less, 1 Equal, 2 Greater)"""
    if isinstance(c, IteV):
        d = st.decide(c.c)
        if d is True:
            return ord_is(st, c.a, variant)
        if d is False:
            return ord_is(st, c.b, variant)
        return cite(c.c, ord_is(st, c.a, variant), ord_is(st, c.b, variant))
    return c.variant == variant

def fcmp(I, name, a, b):
    """PartialOrd on floating-point numbers"""
    if name == 'lt':
        return I.lt(a, b, True)
    if name == 'gt':
        return I.lt(b, a, True)
    if name == 'le':
        return neg(I.lt(b, a, True))
    return neg(I.lt(a, b, True))

def is_float(f):
    t = strip(f.get('self') or {})
    return t.get('k') in ('float',) or (t.get('k') == 'param')

# ------------------------------------------------------------------ sorting
def sort_seq(I, st, ref, less):
    r, v = lastref(st, ref)
    if isinstance(v, IteV) or not isinstance(v, SeqV):
        raise Undecided('sort')
    n = v.len.as_int()
    if n is None:
        raise Undecided('sort of a sequence of unknown length')
    xs = [v.get(lift(i)) for i in range(n)]
    out = []
    for x in xs:
        j = len(out)
        while j > 0:
            c = st.decide(less(x, out[j - 1]))
            if c is True:
                j -= 1
            elif c is False:
                break
            else:
                raise Undecided('sort order')
        out.insert(j, x)
    st.write(r, SeqList(out))
    return UNIT

# ------------------------------------------------------------------ the table
M = {}
def model(*names):
    def d(fn):
        for n in names:
            M[n] = fn
        return fn
    return d

@model('panic', 'panic_fmt', 'begin_panic', 'expect_failed', 'unwrap_failed', 'assert_failed', 'panic_display', 'panic_explicit',
       'unreachable_display', 'panic_bounds_check', 'assert_failed_inner', 'panic_nounwind', 'abort', 'exit', 'resume_unwind', 'panic_any', 'slice_index_fail', 'panic_const')
def _(I, st, f, args, fr, t):
    msg = short(f)
    for a in args:
        if isinstance(a, Opaque):
            msg += ' %s' % (a.d,)
    fail(I, st, msg, fr, t)

@model('todo_default_msg', 'unreachable_default_msg', 'unimplemented_default_msg')
def _(I, st, f, args, fr, t):
    fail(I, st, short(f), fr, t)

@model('clone', 'to_owned', 'cloned', 'copied', 'to_vec', 'into_vec', 'into_boxed_slice', 'into_owned')
def _(I, st, f, args, fr, t):
    a = args[0]
    n = f.get('m') or short(f)
    if n in ('cloned', 'copied'):
        x = rd(st, a) if refish(a) else a
        if is_iter(x):
            return adapt(I, st, f, args, fr, t)
        return gate(st, a, lambda o: o if o.variant == 0 else some(rd(st, o.fields[0])))
    if refish(a):
        v = st.read(a)
        # cloning a value that is itself a reference copies the reference
        if n in ('to_vec', 'to_owned'):
            v = rd(st, a)
        if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag in I.mir.adts:
            b = I.mir.method(v.tag.split('::')[-1], 'Clone', 'clone')
            if b:
                return I.call_body(b, [a], st)
        return v
    return a

@model('borrow', 'borrow_mut')
def _(I, st, f, args, fr, t):
    a = args[0]
    v = st.read(a)
    if refish(v):
        return v
    return a

@model('into', 'from', 'try_into', 'try_from')
def _(I, st, f, args, fr, t):
    a = args[0]
    n = f.get('m')
    if n in ('try_into', 'try_from'):
        raise Undecided(n)
    if isinstance(a, LinV) and I.wrapper:
        return StructV('wrap', 0, (a,))
    if refish(a):
        tgt = strip((f.get('a') or [{}])[0 if n == 'from' else -1])
        v = rd(st, a)
        if tgt.get('p', '').endswith('Vec') and isinstance(v, (SeqV, IteV)):
            return v
        return a
    return a

@model('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'get_ref', 'into_inner', 'as_mut_ptr_range')
def _(I, st, f, args, fr, t):
    a = args[0]
    n = f.get('m') or short(f)
    r, v = lastref(st, a)
    if n in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
        vv = v
        def is_opt(x):
            while isinstance(x, IteV):
                x = x.a if x.a is not UNDEF else x.b
            return isinstance(x, StructV) and x.tag in (OPTION, RESULT)
        if is_opt(v):
            def f1(o):
                if o.tag == OPTION and o.variant == 0:
                    return NONE
                x = ext(r, ('v', o.variant), ('f', 0))
                return StructV(o.tag, o.variant, (x,))
            return gate(st, v, f1)
    def go(s, v):
        if isinstance(v, StructV):
            if v.tag == 'wrap':
                return ext(r, ('f', 0))
            if v.tag in ('arc', 'guard', 'box'):
                return v.fields[0]
            if v.tag == 'poison':
                return v.fields[0] if n == 'into_inner' else ext(r, ('f', 0))
            if v.tag == 'dv':
                return ext(r, ('f', 0))
        return r if r is not None else v
    if isinstance(v, IteV) and not isinstance(v.a, StructV):
        return r
    return ungate(I, st, v, go)

@model('len')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if is_iter(v):
        return consume(I, st, f, args, fr, t)
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.split('::')[-1] in RANGES:
        lo, hi = as_range(I, st, v, None)
        return ite(leq(lo, hi), hi - lo, ZERO)
    def f1(x):
        return x.count() if isinstance(x, MapV) else seq_len(x)
    return gate(st, v, f1)

@model('is_empty')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.split('::')[-1] in RANGES:
        lo, hi = as_range(I, st, v, None)
        return neg(lt(lo, hi))
    n = gate(st, v, lambda x: x.count() if isinstance(x, MapV) else seq_len(x))
    return eq(n, 0)

@model('capacity')
def _(I, st, f, args, fr, t):
    return app('capacity', fresh('cap'), rng=(0, None))

@model('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to')
def _(I, st, f, args, fr, t):
    return UNIT

@model('new_uninit', 'new_uninit_in')
def _(I, st, f, args, fr, t):
    return StructV('box', 0, (heap(st, UNDEF, 'box'),))

@model('box_assume_init_into_vec_unsafe', 'assume_init', 'box_new_uninit')
def _(I, st, f, args, fr, t):
    b = args[0]
    v = st.read(b.fields[0]) if isinstance(b, StructV) and b.tag == 'box' else b
    while isinstance(v, StructV) and v.tag in ('partial',):
        v = v.fields[-1]
    while isinstance(v, StructV) and isinstance(v.tag, str) and ('MaybeUninit' in v.tag or 'ManuallyDrop' in v.tag) or \
            (isinstance(v, StructV) and v.tag == 'partial'):
        v = v.fields[-1]
    return v

@model('new')
def _(I, st, f, args, fr, t):
    p = f.get('rp') or f['p']
    if 'Vec' in p or 'VecDeque' in p:
        return SeqList(())
    if 'HashMap' in p:
        return EMPTY_MAP
    if 'BTreeMap' in p:
        return SortedMap(())
    if 'Arc' in p or 'Rc::' in p:
        return StructV('arc', 0, (heap(st, args[0], 'arc'),))
    if 'Box' in p:
        return StructV('box', 0, (heap(st, args[0], 'box'),))
    if 'RwLock' in p or 'Mutex' in p:
        return StructV('rwlock', 0, (args[0],))
    if 'RangeInclusive' in p:
        return StructV('core::ops::range::RangeInclusive', 0, (args[0], args[1], False))
    if 'fmt' in p:
        return Opaque('fmt')
    if 'Wrapping' in p or 'Cell' in p:
        return StructV(p, 0, args)
    raise Undecided('no model for %s' % p)

@model('with_capacity', 'default')
def _(I, st, f, args, fr, t):
    p = f.get('rp') or f['p']
    s = strip(f.get('self') or {})
    p = p + s.get('p', '')
    if 'Vec' in p:
        return SeqList(())
    if 'HashMap' in p:
        return EMPTY_MAP
    if 'BTreeMap' in p:
        return SortedMap(())
    if s.get('k') in ('int', 'float'):
        return ZERO
    if 'Option' in p:
        return NONE
    if 'PhantomData' in p:
        return StructV('core::marker::PhantomData', 0, ())
    raise Undecided('no model for %s' % p)

@model('from_elem')
def _(I, st, f, args, fr, t):
    n = args[1]
    d = gate(st, n, lambda x: seq_const(x, args[0]))
    return d

@model('push', 'push_back')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    st.write(r, seq_cat(v, SeqList([args[1]])))
    return UNIT

@model('pop')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    def yes(s):
        x = seq_get(v, n - 1)
        s.write(r, seq_slice(v, ZERO, n - 1))
        return some(x)
    return branch(I, st, lt(0, n), yes, lambda s: NONE)

@model('truncate')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = args[1]
    def yes(s):
        s.write(r, seq_slice(v, ZERO, n))
        return UNIT
    return branch(I, st, lt(n, seq_len(v)), yes, lambda s: UNIT)

@model('resize')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV):
        raise Undecided('resize')
    n = args[1]
    st.write(r, gate(st, v, lambda x: seq_resize(x, n, args[2])))
    return UNIT

@model('resize_with')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n, c = args[1].as_int(), seq_len(v).as_int()
    if n is None or c is None:
        raise Undecided('resize_with')
    if n <= c:
        st.write(r, seq_slice(v, ZERO, args[1]))
    else:
        fn = heap(st, args[2], 'fn')
        xs = [I.callv(fn, [], st) for _ in range(n - c)]
        st.write(r, seq_cat(st.read(r), SeqList(xs)))
    return UNIT

@model('extend_from_slice')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    st.write(r, seq_cat(v, rd(st, args[1])))
    return UNIT

@model('extend')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    it = to_iter(I, st, args[1], f, fr, t)
    if isinstance(v, MapV):
        each(I, st, it, lambda s, x: s.write(r, map_op(s.read(r), lambda m: m.set(rd(s, x.fields[0]), rd(s, x.fields[1])))))
    else:
        xs = collect_vec(I, st, it)
        if isinstance(xs, SeqList):
            xs = SeqList([rd(st, x) for x in xs.items])
        st.write(r, seq_cat(v, xs))
    return UNIT

@model('append')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    r2, v2 = lastref(st, args[1])
    st.write(r, seq_cat(v, v2))
    st.write(r2, SeqList(()))
    return UNIT

@model('clear')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    st.write(r, gate(st, v, lambda x: empty_map(x) if isinstance(x, MapV) else SeqList(())))
    return UNIT

@model('fill')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    st.write(r, gate(st, v, lambda x: seq_const(seq_len(x), args[1])))
    return UNIT

@model('copy_from_slice', 'clone_from_slice')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    w = rd(st, args[1])
    need(I, st, eq(seq_len(v), seq_len(w)), 'slice lengths differ', fr, t)
    st.write(r, w)
    return UNIT

@model('clone_from', 'clone_into')
def _(I, st, f, args, fr, t):
    a, b = (args[0], args[1]) if short(f) == 'clone_from' else (args[1], args[0])
    r, v = lastref(st, a)
    st.write(r, rd(st, b))
    return UNIT

@model('get', 'get_mut')
def _(I, st, f, args, fr, t):
    if len(args) == 1:
        p = f.get('rp') or f['p']
        if 'lazy' in p:
            return I.lazy_get(st, args)
        v = rd(st, args[0])
        if isinstance(v, StructV) and v.tag == 'occ':
            return ext(v.fields[0], ('mk', v.fields[1]))
        return M['deref'](I, st, f, args, fr, t)
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and v.tag == 'guard':
        r, v = lastref(st, v.fields[0])
    x = v.a if isinstance(v, IteV) else v
    if isinstance(x, MapV):
        k = rd(st, args[1])
        def go(s, m):
            c = s.decide(m.pres(k))
            if c is False:
                return NONE
            o = some(ext(r, ('mk', k)))
            return o if c is True else IteV(c, o, NONE)
        return ungate(I, st, v, go)
    return index(I, st, args[0], args[1], fr, t, checked=True)

@model('index', 'index_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    x = v.a if isinstance(v, IteV) else v
    if isinstance(x, MapV):
        k = rd(st, args[1])
        need(I, st, gate(st, v, lambda m: m.pres(k)), 'no such key', fr, t)
        return ext(r, ('mk', k))
    return index(I, st, args[0], args[1], fr, t)

UNCHECKED = 'out-of-bounds unchecked access'
def require(I, st, c, fr, t):
    """an unchecked operation is right only when c"""
    c = st.decide(c)
    I.unchecked.append((c is True, fr.body['file'] if fr else '?', (t or {}).get('line')))
    if c is not True:
        if c is False:
            I.panic(st, UNCHECKED, fr, t or {})
            raise Diverged()
        s2 = st.copy()
        if s2.assume(neg(c)):
            I.panic(s2, UNCHECKED, fr, t or {})
        st.assume(c)

def ptr_at(I, st, p, n, fr, t):
    """the sequence a raw pointer points into, checked to have n elements from there"""
    r, off = p.fields
    l = seq_len(rd(st, r))
    require(I, st, conj(leq(0, off), leq(off + n, l)), fr, t)
    return r

@model('as_ptr', 'as_mut_ptr')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not isinstance(v, SeqV):
        raise Undecided('pointer to %r' % (v,))
    return StructV('ptr', 0, (r, ZERO))

def pointer(st, v):
    v = rd(st, v) if isinstance(v, RefV) else v
    if not (isinstance(v, StructV) and v.tag == 'ptr'):
        raise Undecided('a raw pointer is expected, got %r' % (v,))
    return v

def moved(sign):
    def fn(I, st, f, args, fr, t):
        p = pointer(st, args[0])
        r, off = p.fields
        n = off + args[1] if sign > 0 else off - args[1]
        # a pointer may be moved within its sequence or just past the end
        if f.get('uns'):
            require(I, st, conj(leq(0, n), leq(n, seq_len(rd(st, r)))), fr, t)
        return StructV('ptr', 0, (r, n))
    return fn

def ptr_read(I, st, f, args, fr, t):
    p = pointer(st, args[0])
    return st.read(ext(ptr_at(I, st, p, ONE, fr, t), ('ix', p.fields[1])))

def ptr_write(I, st, f, args, fr, t):
    p = pointer(st, args[0])
    st.write(ext(ptr_at(I, st, p, ONE, fr, t), ('ix', p.fields[1])), args[1])
    return UNIT

def ptr_cast(I, st, f, args, fr, t):
    return pointer(st, args[0])

PM = {'add': moved(1), 'offset': moved(1), 'sub': moved(-1), 'wrapping_add': moved(1), 'wrapping_sub': moved(-1),
      'read': ptr_read, 'write': ptr_write, 'cast_mut': ptr_cast, 'cast_const': ptr_cast}

@model('from_raw_parts', 'from_raw_parts_mut', 'slice_from_raw_parts', 'slice_from_raw_parts_mut')
def _(I, st, f, args, fr, t):
    p = pointer(st, args[0])
    r = ptr_at(I, st, p, args[1], fr, t)
    return ext(r, ('rng', p.fields[1], p.fields[1] + args[1]))

@model('split_at_unchecked', 'split_at_mut_unchecked')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    require(I, st, leq(args[1], n), fr, t)
    return tup(ext(r, ('rng', ZERO, args[1])), ext(r, ('rng', args[1], n)))

@model('set_len')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not isinstance(v, SeqV):
        raise Undecided('set_len of %r' % (v,))
    # elements beyond the length are not initialised
    require(I, st, leq(args[1], seq_len(v)), fr, t)
    st.write(r, seq_resize(v, args[1], UNDEF))
    return UNIT

@model('unwrap_unchecked')
def _(I, st, f, args, fr, t):
    def go(v):
        if isinstance(v, IteV):
            d = st.decide(v.c)
            if d is not None:
                return go(v.a if d else v.b)
            a, b = v.a, v.b
            for x, y, c in ((a, b, v.c), (b, a, neg(v.c))):
                if isinstance(y, StructV) and y.tag == OPTION and y.variant == 0:
                    require(I, st, c, fr, t)
                    return go(x)
            raise Undecided('unwrap_unchecked of %r' % (v,))
        if isinstance(v, StructV) and v.tag == OPTION:
            require(I, st, v.variant == 1, fr, t)
            return v.fields[0]
        raise Undecided('unwrap_unchecked of %r' % (v,))
    return go(rd(st, args[0]))

@model('unreachable_unchecked')
def _(I, st, f, args, fr, t):
    require(I, st, False, fr, t)
    raise Diverged()

@model('assert_unchecked')
def _(I, st, f, args, fr, t):
    require(I, st, args[0], fr, t)
    return UNIT

@model('get_unchecked', 'get_unchecked_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    iv = args[1]
    rg = as_range(I, st, iv, n)
    require(I, st, conj(leq(0, iv), lt(iv, n)) if rg is None else conj(leq(rg[0], rg[1]), leq(rg[1], n)), fr, t)
    return ext(r, ('ix', iv)) if rg is None else ext(r, ('rng', rg[0], rg[1]))

@model('first', 'first_mut', 'last_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    i = ZERO if short(f).startswith('first') else seq_len(v) - 1
    c = st.decide(lt(0, seq_len(v)))
    if c is False:
        return NONE
    o = some(ext(r, ('ix', i)))
    return o if c is True else IteV(c, o, NONE)

@model('last')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if is_iter(v) or not refish(args[0]):
        return consume(I, st, f, args, fr, t)
    r, v = lastref(st, args[0])
    c = st.decide(lt(0, seq_len(v)))
    if c is False:
        return NONE
    o = some(ext(r, ('ix', seq_len(v) - 1)))
    return o if c is True else IteV(c, o, NONE)

@model('split_at', 'split_at_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    need(I, st, leq(args[1], n), 'split index out of bounds', fr, t)
    return tup(ext(r, ('rng', ZERO, args[1])), ext(r, ('rng', args[1], n)))

@model('split_first', 'split_last', 'split_first_mut', 'split_last_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    c = st.decide(lt(0, n))
    if c is False:
        return NONE
    if 'first' in short(f):
        o = some(tup(ext(r, ('ix', ZERO)), ext(r, ('rng', ONE, n))))
    else:
        o = some(tup(ext(r, ('ix', n - 1)), ext(r, ('rng', ZERO, n - 1))))
    return o if c is True else IteV(c, o, NONE)

@model('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n, c = seq_len(v), args[1]
    need(I, st, lt(0, c), 'chunk size must be non-zero', fr, t)
    if 'exact' in short(f):
        cnt = ints.idiv(n, c)
        return IterV(ZERO, cnt, lambda I, s, k: ext(r, ('rng', k * c, k * c + c)), ('chunks', ext(r, ('rng', cnt * c, n))))
    cnt = ints.idiv(n + c - 1, c)
    return IterV(ZERO, cnt, lambda I, s, k: ext(r, ('rng', k * c, pmin(k * c + c, n))), 'chunks')

@model('remainder', 'into_remainder')
def _(I, st, f, args, fr, t):
    it = rd(st, args[0])
    if isinstance(it, IterV) and isinstance(it.label, tuple) and it.label[0] == 'chunks':
        return it.label[1]
    raise Undecided('remainder of %r' % (it,))

@model('windows')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n, c = seq_len(v), args[1]
    return IterV(ZERO, n - c + 1, lambda I, s, k: ext(r, ('rng', k, k + c)), 'windows')

@model('swap')
def _(I, st, f, args, fr, t):
    if len(args) == 3:
        r, v = lastref(st, args[0])
        i, j = args[1], args[2]
        n = seq_len(v)
        need(I, st, conj(lt(i, n), lt(j, n)), 'index out of bounds', fr, t)
        x, y = seq_get(v, i), seq_get(v, j)
        st.write(r, seq_store(seq_store(v, i, y), j, x))
        return UNIT
    a, b = st.read(args[0]), st.read(args[1])
    st.write(args[0], b)
    st.write(args[1], a)
    return UNIT

@model('reverse')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if isinstance(v, StructV) and v.tag == ORDERING:
        return StructV(ORDERING, 2 - v.variant, ())
    if isinstance(v, IteV) and not isinstance(v.a, SeqV):
        return gate(st, v, lambda o: StructV(ORDERING, 2 - o.variant, ()))
    r, v = lastref(st, args[0])
    n = seq_len(v)
    c = n.as_int()
    st.write(r, SeqList([seq_get(v, lift(c - 1 - i)) for i in range(c)]) if c is not None else SeqFn(n, lambda i: seq_get(v, n - 1 - i)))
    return UNIT

@model('replace', 'take')
def _(I, st, f, args, fr, t):
    n = f.get('m') or short(f)
    if n == 'take' and len(args) == 2:
        return adapt(I, st, f, args, fr, t)
    p = f.get('rp') or f['p']
    old = st.read(args[0])
    if n == 'replace':
        if 'Option' in p:
            st.write(args[0], some(args[1]))
        else:
            st.write(args[0], args[1])
        return old
    def dflt(o):
        if isinstance(o, SeqV):
            return SeqList(())
        if isinstance(o, MapV):
            return empty_map(o)
        if isinstance(o, StructV) and o.tag == OPTION:
            return NONE
        if isinstance(o, Poly):
            return ZERO
        raise Undecided('take')
    st.write(args[0], gate(st, old, dflt))
    return old

@model('drop', 'forget', 'black_box')
def _(I, st, f, args, fr, t):
    h = I.hooks.get('dropcall')
    if h:
        h(I, args, st)
    return UNIT

@model('must_use', 'identity')
def _(I, st, f, args, fr, t):
    return args[0]

@model('to_string', 'format')
def _(I, st, f, args, fr, t):
    return Opaque('string')

# ---- sorting and searching
@model('sort', 'sort_unstable')
def _(I, st, f, args, fr, t):
    return sort_seq(I, st, args[0], lambda x, y: ord_is(st, compare(I, st, x, y), 0))

@model('sort_by', 'sort_unstable_by')
def _(I, st, f, args, fr, t):
    fn = heap(st, args[1], 'fn')
    return sort_seq(I, st, args[0], lambda x, y: ord_is(st, I.callv(fn, [heap(st, x, 'tmp'), heap(st, y, 'tmp')], st), 0))

@model('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')
def _(I, st, f, args, fr, t):
    fn = heap(st, args[1], 'fn')
    key = lambda x: I.callv(fn, [heap(st, x, 'tmp')], st)
    return sort_seq(I, st, args[0], lambda x, y: ord_is(st, compare(I, st, key(x), key(y)), 0))

@model('partition_point')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    fn = heap(st, args[1], 'fn')
    n = seq_len(v).as_int()
    if n is None:
        # the index below which the predicate holds and from which it does not
        raise Undecided('partition_point of a sequence of unknown length')
    res = lift(n)
    for i in range(n - 1, -1, -1):
        c = I.callv(fn, [ext(r, ('ix', lift(i)))], st)
        res = ite(neg(c), lift(i), res) if not isinstance(c, bool) else (res if c else lift(i))
    return res

@model('binary_search', 'binary_search_by', 'binary_search_by_key')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v).as_int()
    if n is None:
        raise Undecided('binary search')
    name = short(f)
    fn = heap(st, args[-1], 'fn') if name != 'binary_search' else None
    def cmpi(i):
        x = ext(r, ('ix', lift(i)))
        if name == 'binary_search':
            return compare(I, st, x, args[1])
        if name == 'binary_search_by':
            return I.callv(fn, [x], st)
        return compare(I, st, I.callv(fn, [x], st), args[1])
    cs = [cmpi(i) for i in range(n)]
    # decided comparisons only: an equal element (if unique) or the insertion point
    eqs = [st.decide(ord_is(st, c, 1)) for c in cs]
    lts = [st.decide(ord_is(st, c, 0)) for c in cs]
    if any(not isinstance(x, bool) for x in eqs + lts):
        raise Undecided('binary search on undecided data')
    if sum(eqs) > 1:
        raise Undecided('binary search with equal elements')
    if any(eqs):
        return StructV(RESULT, 0, (lift(eqs.index(True)),))
    return StructV(RESULT, 1, (lift(sum(lts)),))

@model('contains')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    x = rd(st, args[1])
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.split('::')[-1] in RANGES:
        n = v.tag.split('::')[-1]
        if n == 'Range':
            return conj(leq(v.fields[0], x), lt(x, v.fields[1]))
        if n == 'RangeInclusive':
            return conj(leq(v.fields[0], x), leq(x, v.fields[1]))
        if n == 'RangeTo':
            return lt(x, v.fields[0])
        if n == 'RangeToInclusive':
            return leq(x, v.fields[0])
        if n == 'RangeFrom':
            return leq(v.fields[0], x)
    n = seq_len(v).as_int()
    if n is None:
        raise Undecided('contains')
    return disj(*[I.equal(seq_get(v, lift(i)), x, st) for i in range(n)])

@model('start', 'end')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    return ext(r, ('f', 0 if short(f) == 'start' else 1))

# ---- equality and order
@model('eq', 'ne')
def _(I, st, f, args, fr, t):
    a, b = rd(st, args[0]), rd(st, args[1])
    if is_iter(a):
        return consume(I, st, f, args, fr, t)
    def adt_eq(x, y):
        b2 = I.mir.method(x.tag.split('::')[-1], 'PartialEq', 'eq')
        if b2:
            return I.call_body(b2, [args[0] if refish(args[0]) else heap(st, a, 'tmp'), args[1] if refish(args[1]) else heap(st, b, 'tmp')], st)
        return I.equal(x, y, st)
    if isinstance(a, StructV) and isinstance(a.tag, str) and a.tag in I.mir.adts:
        r0, r1 = lastref(st, args[0])[0], lastref(st, args[1])[0]
        b2 = I.mir.method(a.tag.split('::')[-1], 'PartialEq', 'eq')
        c = I.call_body(b2, [r0, r1], st) if b2 and r0 and r1 else I.equal(a, b, st)
    else:
        c = I.equal(a, b, st)
    return c if (f.get('m') or short(f)) == 'eq' else neg(c)

@model('cmp', 'partial_cmp', 'total_cmp')
def _(I, st, f, args, fr, t):
    if is_iter(rd(st, args[0])):
        args = [known(st, collect_vec(I, st, iter_arg(I, st, x, f, fr, t)), 'cmp') for x in args[:2]]
        args = [SeqList(x) if not isinstance(x, SeqV) else x for x in args]
    c = compare(I, st, args[0], args[1])
    return some(c) if short(f) == 'partial_cmp' or f.get('m') == 'partial_cmp' else c

@model('lt', 'le', 'gt', 'ge')
def _(I, st, f, args, fr, t):
    a, b = rd(st, args[0]), rd(st, args[1])
    n = f.get('m') or short(f)
    if isinstance(a, Poly) and isinstance(b, Poly) and is_float(f):
        return fcmp(I, n, a, b)
    c = compare(I, st, a, b)
    return {'lt': ord_is(st, c, 0), 'gt': ord_is(st, c, 2), 'le': neg(ord_is(st, c, 2)), 'ge': neg(ord_is(st, c, 0))}[n]

@model('max', 'min')
def _(I, st, f, args, fr, t):
    n = f.get('m') or short(f)
    if len(args) == 1:
        return consume(I, st, f, args, fr, t)
    a, b = args
    c = compare(I, st, a, b)
    gt = ord_is(st, c, 2)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return (pmax if n == 'max' else pmin)(a, b)
    return merge(gt, a, b) if n == 'max' else merge(gt, b, a)

@model('clamp')
def _(I, st, f, args, fr, t):
    return pmin(pmax(args[0], args[1]), args[2])

@model('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne')
def _(I, st, f, args, fr, t):
    n = short(f)
    c = args[0]
    return {'is_lt': ord_is(st, c, 0), 'is_gt': ord_is(st, c, 2), 'is_eq': ord_is(st, c, 1), 'is_le': neg(ord_is(st, c, 2)),
            'is_ge': neg(ord_is(st, c, 0)), 'is_ne': neg(ord_is(st, c, 1))}[n]

@model('then', 'then_with')
def _(I, st, f, args, fr, t):
    c = args[0]
    if is_cond(c):       # bool::then
        return branch(I, st, c, lambda s: some(I.callv(args[1], [], s)), lambda s: NONE)
    if short(f) == 'then':
        return merge(ord_is(st, c, 1), args[1], c)
    return branch(I, st, ord_is(st, c, 1), lambda s: I.callv(args[1], [], s), lambda s: c)

@model('then_some')
def _(I, st, f, args, fr, t):
    return merge(args[0], some(args[1]), NONE)

# ---- arithmetic
ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
def arith(I, st, f, args, fr, t):
    n = f.get('m') or short(f)
    assign = n.endswith('_assign')
    op = ARITH[n[:-7] if assign else n]
    a, b = rd(st, args[0]), rd(st, args[1])
    ty = strip(f.get('self') or {})
    if ty.get('k') not in ('int', 'float', 'bool'):
        raise Undecided('operator on %r' % (ty,))
    r = I.binop(fr, op, a, b, ty, st, t or {})
    if assign:
        st.write(args[0], r)
        return UNIT
    return r
for _n in ARITH:
    M[_n] = arith
    M[_n + '_assign'] = arith

@model('neg')
def _(I, st, f, args, fr, t):
    if I.exact:
        return floats.op('neg', int_ty(f), num(I, rd(st, args[0])))
    return -num(I, rd(st, args[0]))

@model('not')
def _(I, st, f, args, fr, t):
    a = rd(st, args[0])
    if is_cond(a):
        return neg(a)
    return ints.bit_not(a, strip(f['self'])['n'])

def int_ty(f):
    import re
    m = re.search(r'<impl ([iu]\w+|f32|f64)>', f.get('rp') or f['p'])
    if m:
        return m.group(1)
    t = strip(f.get('self') or {})
    return t.get('n', 'usize')

@model('pow')
def _(I, st, f, args, fr, t):
    ty = int_ty(f)
    p = ints.ipow(args[0], args[1])
    return I.arith(fr, p, ty, st, t or {})

@model('powi')
def _(I, st, f, args, fr, t):
    n = args[1].as_int()
    if n is None or I.exact:
        raise Undecided('powi')
    return args[0] ** n if n >= 0 else inv(args[0]) ** (-n)

@model('recip')
def _(I, st, f, args, fr, t):
    if I.exact:
        return floats.op('/', int_ty(f), ONE, args[0])
    return inv(args[0])

@model('mul_add')
def _(I, st, f, args, fr, t):
    if I.exact:
        return app('ffma ' + int_ty(f), *args)
    return args[0] * args[1] + args[2]

@model('abs', 'signum', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'to_bits', 'exp', 'ln', 'is_nan', 'is_finite', 'is_infinite', 'is_normal', 'is_sign_negative', 'is_sign_positive', 'copysign')
def _(I, st, f, args, fr, t):
    n = short(f)
    args = [rd(st, a) if isinstance(a, RefV) else a for a in args]
    c = args[0].const() if isinstance(args[0], Poly) else None
    if c is not None:
        if n == 'abs':
            return lift(abs(c))
        if n == 'signum':
            return lift((c > 0) - (c < 0))
        if n in ('floor', 'trunc') and c >= 0:
            return lift(c.numerator // c.denominator)
    # coefficients are numbers
    if n in ('is_nan', 'is_infinite'):
        return False
    if n == 'is_finite':
        return True
    if isinstance(args[0], Poly) and n in ('abs', 'signum', 'is_sign_negative', 'is_sign_positive', 'is_normal'):
        isf = (f.get('rp') or f['p']).find('f32') >= 0 or (f.get('rp') or f['p']).find('f64') >= 0
        less = (lambda p: ('b', 'flt', p) if p.const() is None else p.const() < 0) if isf else (lambda p: lt(p, ZERO))
        neg_ = less(args[0])
        if n == 'abs':
            return ite(neg_, floats.op('neg', int_ty(f), args[0]) if I.exact and isf else -args[0], args[0])
        if n == 'is_sign_negative':
            return neg_
        if n == 'is_sign_positive':
            return neg(neg_)
        if n == 'signum' and not isf:
            return ite(neg_, MONE, ite(eq(args[0]), ZERO, ONE))
        if n == 'signum':
            return ite(neg_, MONE, ONE)
        if n == 'is_normal':
            return neg(eq(args[0]))
    return app(n, *args)

@model('checked_add', 'checked_sub', 'checked_mul', 'checked_pow', 'checked_div', 'saturating_sub', 'saturating_add', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul',
       'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'checked_rem', 'saturating_pow', 'wrapping_pow', 'wrapping_neg', 'unchecked_add', 'unchecked_sub', 'checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr')
def _(I, st, f, args, fr, t):
    n = short(f)
    ty = int_ty(f)
    kind, op = n.split('_')
    a = args[0]
    b = args[1] if len(args) > 1 else None
    if op in ('shl', 'shr'):
        k = b.as_int()
        if k is None:
            raise Undecided(n)
        fn = ints.shl if op == 'shl' else ints.shr
        if kind == 'checked':
            return some(fn(a, b, ty)) if k < ints.BITS[ty] else NONE
        return fn(a, lift(k % ints.BITS[ty]), ty)
    if op in ('div', 'rem'):
        z = st.decide(eq(b, 0))
        if z is True:
            return NONE
        v = ints.idiv(a, b, ty[0] == 'i') if op == 'div' else ints.irem(a, b, ty[0] == 'i')
        return some(v) if z is False else IteV(neg(z), some(v), NONE)
    p = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'pow': lambda: ints.ipow(a, b), 'neg': lambda: -a}[op]()
    lo, hi = ints.irange(ty)
    inr = st.decide(conj(leq(lo, p), leq(p, hi)))
    if ty in ('usize', 'u64', 'u32') and not isinstance(inr, bool) and op in ('add', 'mul', 'pow') and prange(p)[0] is not None and prange(p)[0] >= 0 and prange(p)[1] is None:
        inr = True       # sizes are far below the machine bound
    if kind == 'checked':
        return gate(st, IteV(inr, some(p), NONE), lambda x: x) if not isinstance(inr, bool) else (some(p) if inr else NONE)
    if kind == 'saturating':
        return ite(inr, p, ite(leq(p, hi), lift(lo), lift(hi)))
    if kind == 'overflowing':
        w = ints.wrap(p, ty)
        if w is None:
            raise Undecided(n)
        return tup(w, w != p)
    w = ints.wrap(p, ty)
    if w is None:
        if inr is True:
            return p
        raise Undecided(n)
    return w

@model('rem_euclid', 'div_euclid', 'div_ceil', 'abs_diff', 'unsigned_abs', 'is_power_of_two', 'next_power_of_two', 'ilog2', 'ilog', 'ilog10', 'leading_zeros', 'trailing_zeros', 'count_ones', 'isqrt')
def _(I, st, f, args, fr, t):
    n = short(f)
    a = args[0]
    c = a.as_int()
    if n == 'div_ceil':
        return ints.idiv(a + args[1] - 1, args[1])
    if n in ('rem_euclid', 'div_euclid') and (prange(a)[0] or -1) >= 0:
        return (ints.irem if n == 'rem_euclid' else ints.idiv)(a, args[1], False)
    if n == 'abs_diff':
        return ite(leq(a, args[1]), args[1] - a, a - args[1])
    if c is None:
        raise Undecided(n)
    bits = ints.BITS[int_ty(f)]
    if n == 'unsigned_abs':
        return lift(abs(c))
    if n == 'is_power_of_two':
        return c > 0 and c & (c - 1) == 0
    if n == 'next_power_of_two':
        return lift(1 << max(0, (c - 1).bit_length()))
    if n == 'ilog2':
        if c <= 0:
            fail(I, st, 'ilog2 of zero', fr, t)
        return lift(c.bit_length() - 1)
    if n == 'ilog':
        b = args[1].as_int()
        k = 0
        while b ** (k + 1) <= c:
            k += 1
        return lift(k)
    if n == 'leading_zeros':
        return lift(bits - (c % 2 ** bits).bit_length())
    if n == 'trailing_zeros':
        return lift(bits if c == 0 else (c & -c).bit_length() - 1)
    if n == 'count_ones':
        return lift(bin(c % 2 ** bits).count('1'))
    import math
    if n == 'isqrt':
        return lift(math.isqrt(c))
    raise Undecided(n)

# ---- iteration
@model('into_iter')
def _(I, st, f, args, fr, t):
    a = args[0]
    return to_iter(I, st, a, f, fr, t)

@model('iter', 'iter_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    x = v.a if isinstance(v, IteV) else v
    if isinstance(x, MapV):
        if isinstance(v, IteV):
            raise Undecided('gated map')
        return map_iter(I, st, r, v)
    return slice_iter(I, st, r)

@model('keys', 'into_keys')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not isinstance(v, MapV):
        raise Undecided('keys')
    it = map_iter(I, st, r or heap(st, v), v, 'k')
    return it

@model('values', 'values_mut', 'into_values')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not isinstance(v, MapV):
        raise Undecided('values')
    return map_iter(I, st, r or heap(st, v), v, 'v')

@model('drain')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, MapV):
        st.write(r, empty_map(v))
        return to_iter(I, st, v)
    lo, hi = as_range(I, st, args[1], seq_len(v))
    s = seq_slice(v, lo, hi)
    st.write(r, seq_cat(seq_slice(v, ZERO, lo), seq_slice(v, hi, seq_len(v))))
    return to_iter(I, st, s)

@model('retain')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    fn = heap(st, args[1], 'fn')
    if isinstance(v, MapDict):
        keys = [e[0] for e in v.entries]
        for k in keys:
            st.mem[('mapkey', k)] = k
            def test(s):
                c = I.callv(fn, [RefV(('mapkey', k)), ext(r, ('mk', k))], s)
                m = s.read(r)
                s.write(r, merge(c, m, m.remove(k)))
                return UNIT
            p = v.pres(k)
            branch(I, st, p, test, lambda s: UNIT)
        return UNIT
    x = v.a if isinstance(v, IteV) else v
    if isinstance(x, SeqV):
        xs = known(st, v, 'retain')
        st.write(r, SeqList(()))
        for x in xs:
            cell = heap(st, x, 'cell')
            def keep(s):
                s.write(r, gate(s, s.read(r), lambda q: seq_cat(q, SeqList([s.read(cell)]))))
                return UNIT
            branch(I, st, I.callv(fn, [cell], st), keep, lambda s: UNIT)
        return UNIT
    raise Undecided('retain')
M['retain_mut'] = M['retain']

@model('next')
def _(I, st, f, args, fr, t):
    return next_(I, st, args[0], fr, t)

@model('next_back')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and isinstance(v.tag, str) and v.tag.split('::')[-1] in RANGES:
        v = to_iter(I, st, v)
    if not isinstance(v, IterV) or len(v.ends) != 1:
        raise Undecided('next_back')
    e = v.ends[0]
    def yes(s):
        x = v.item(I, s, e - 1)
        s.write(r, IterV(v.pos, e - 1, v.item, v.label))
        return some(x)
    return branch(I, st, v.more(), yes, lambda s: NONE)

for _n in ('rev', 'zip', 'map', 'enumerate', 'skip', 'step_by', 'chain', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'by_ref', 'fuse', 'peekable', 'map_while', 'scan',
           'flat_map', 'flatten'):
    M[_n] = adapt
for _n in ('for_each', 'fold', 'sum', 'product', 'count', 'all', 'any', 'find', 'position', 'find_map', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'nth', 'collect', 'unzip',
           'rfold', 'rfind', 'rposition', 'reduce', 'try_fold', 'try_for_each', 'partition'):
    M[_n] = consume

@model('size_hint')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if isinstance(v, IterV):
        return tup(v.end - v.pos, some(v.end - v.pos))
    return tup(ZERO, NONE)

@model('once')
def _(I, st, f, args, fr, t):
    x = args[0]
    return IterV(ZERO, ONE, lambda I, s, k: x)

@model('empty')
def _(I, st, f, args, fr, t):
    return IterV(ZERO, ZERO, lambda I, s, k: UNDEF)

@model('repeat')
def _(I, st, f, args, fr, t):
    x = args[0]
    return IterV(ZERO, (), lambda I, s, k: x)

@model('from_iter')
def _(I, st, f, args, fr, t):
    g = dict(f)
    g['m'] = 'collect'
    g['a'] = [f.get('self')]
    return consume(I, st, g, args, fr, t)

@model('from_fn')
def _(I, st, f, args, fr, t):
    p = f.get('rp') or f['p']
    if 'array' in p:
        raise Undecided('no model for %s' % p)
    return StructV('it:from_fn', 0, (args[0],))

@model('successors')
def _(I, st, f, args, fr, t):
    return StructV('it:successors', 0, (args[0], args[1]))

@model('repeat_n')
def _(I, st, f, args, fr, t):
    x = args[0]
    return IterV(ZERO, args[1], lambda I, s, k: x)

@model('repeat_with')
def _(I, st, f, args, fr, t):
    fn = heap(st, args[0], 'fn')
    return IterV(ZERO, (), lambda I, s, k: I.callv(fn, [], s))

@model('once_with')
def _(I, st, f, args, fr, t):
    fn = heap(st, args[0], 'fn')
    return IterV(ZERO, ONE, lambda I, s, k: I.callv(fn, [], s))

@model('nth_back')
def _(I, st, f, args, fr, t):
    n = args[1].as_int()
    if n is None:
        raise Undecided('nth_back')
    for _ in range(n):
        M['next_back'](I, st, f, args, fr, t)
    return M['next_back'](I, st, f, args, fr, t)

def no_shared(v):
    return not (isinstance(v, StructV) and v.tag == 'it:ref') and \
        all(no_shared(x) for x in (v.fields if isinstance(v, StructV) and str(v.tag).startswith('it:') else ()))

@model('peek', 'peek_mut')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not is_iter(v) or not no_shared(v):
        raise Undecided('peek')
    o = next_(I, st, r, fr, t)
    st.write(r, v)
    return gate(st, o, lambda o: NONE if o.variant == 0 else some(heap(st, o.fields[0], 'tmp')))

@model('next_if')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if not is_iter(v) or not no_shared(v):
        raise Undecided('next_if')
    fn = heap(st, args[1], 'fn')
    def go(s, o):
        if o.variant == 0:
            return NONE
        def no(s2):
            s2.write(r, v)
            return NONE
        return branch(I, s, I.callv(fn, [heap(s, o.fields[0], 'tmp')], s), lambda s2: o, no)
    return ungate(I, st, next_(I, st, r, fr, t), go)

# ---- rearranging sequences of known length
def known(st, v, what):
    n = seq_len(v).as_int()
    if n is None:
        raise Undecided('%s of a sequence of unknown length' % what)
    return [seq_get(v, lift(i)) for i in range(n)]

@model('dedup', 'dedup_by', 'dedup_by_key')
def _(I, st, f, args, fr, t):
    name = f.get('m') or short(f)
    r, v = lastref(st, args[0])
    fn = heap(st, args[1], 'fn') if len(args) > 1 else None
    xs = known(st, v, name)
    # the cells hold the elements while the closure may change them; keep: whether each stays
    st.write(r, SeqList(()))
    cells = [heap(st, x, 'cell') for x in xs]
    def go(s, out, k):
        while k < len(cells):
            if not out:
                out, k = out + [k], k + 1
                continue
            a, b = cells[k], cells[out[-1]]
            if name == 'dedup':
                c = I.equal(s.read(a), s.read(b), s)
            elif name == 'dedup_by':
                c = I.callv(fn, [a, b], s)
            else:
                c = I.equal(I.callv(fn, [a], s), I.callv(fn, [b], s), s)
            c = s.decide(c)
            if c is True:
                k += 1
            elif c is False:
                out, k = out + [k], k + 1
            else:
                o, kk = out, k
                return branch(I, s, c, lambda s2: go(s2, o, kk + 1), lambda s2: go(s2, o + [kk], kk + 1))
        s.write(r, SeqList([s.read(cells[i]) for i in out]))
        return UNIT
    return go(st, [], 0)

@model('swap_remove')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    i, n = args[1], seq_len(v)
    need(I, st, lt(i, n), 'swap_remove index out of bounds', fr, t)
    o, l = seq_get(v, i), seq_get(v, n - 1)
    st.write(r, seq_slice(seq_store(v, i, l), ZERO, n - 1))
    return o

@model('split_off')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    i, n = args[1], seq_len(v)
    need(I, st, leq(i, n), 'split_off index out of bounds', fr, t)
    st.write(r, seq_slice(v, ZERO, i))
    return seq_slice(v, i, n)

@model('rotate_left', 'rotate_right')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n, k = seq_len(v), args[1]
    need(I, st, leq(k, n), 'rotation longer than the slice', fr, t)
    if 'right' in short(f):
        k = n - k
    st.write(r, seq_cat(seq_slice(v, k, n), seq_slice(v, ZERO, k)))
    return UNIT

@model('concat')
def _(I, st, f, args, fr, t):
    out = SeqList(())
    for x in known(st, rd(st, args[0]), 'concat'):
        out = seq_cat(out, rd(st, x))
    return out

@model('starts_with', 'ends_with')
def _(I, st, f, args, fr, t):
    a, b = rd(st, args[0]), rd(st, args[1])
    n, m = seq_len(a), seq_len(b)
    def yes(s):
        part = seq_slice(a, ZERO, m) if 'starts' in short(f) else seq_slice(a, n - m, n)
        return I.equal(part, b, s)
    return branch(I, st, leq(m, n), yes, lambda s: False)

@model('fill_with')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    fn = heap(st, args[1], 'fn')
    n = seq_len(v).as_int()
    if n is None:
        raise Undecided('fill_with')
    st.write(r, SeqList([I.callv(fn, [], st) for _ in range(n)]))
    return UNIT

@model('swap_with_slice')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    q, w = lastref(st, args[1])
    need(I, st, eq(seq_len(v), seq_len(w)), 'slice lengths differ', fr, t)
    st.write(r, w)
    st.write(q, v)
    return UNIT

@model('copy_within')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    lo, hi = as_range(I, st, args[1], n)
    d = args[2]
    need(I, st, conj(leq(lo, hi), leq(hi, n), leq(d + (hi - lo), n)), 'copy_within out of bounds', fr, t)
    st.write(r, seq_splice(v, d, d + (hi - lo), seq_slice(v, lo, hi)))
    return UNIT

@model('extend_from_within')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    n = seq_len(v)
    lo, hi = as_range(I, st, args[1], n)
    need(I, st, conj(leq(lo, hi), leq(hi, n)), 'range out of bounds', fr, t)
    st.write(r, seq_cat(v, seq_slice(v, lo, hi)))
    return UNIT

# ---- closures
@model('call', 'call_mut', 'call_once')
def _(I, st, f, args, fr, t):
    a = args[1]
    xs = list(a.fields) if isinstance(a, StructV) and a.tag == 'tuple' else [a]
    return I.callv(args[0], xs, st, fr, t)

# ---- maps
@model('insert')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and v.tag in ('occ', 'vac'):
        mr, k = v.fields
        m = st.read(mr)
        old = map_op(m, lambda x: x.val(k)) if v.tag == 'occ' else None
        st.write(mr, map_op(m, lambda x: x.set(k, args[1])))
        return old if v.tag == 'occ' else ext(mr, ('mk', k))
    x = v.a if isinstance(v, IteV) else v
    if isinstance(x, StructV) and x.tag == OPTION:
        st.write(r, some(args[1]))
        return ext(r, ('v', 1), ('f', 0))
    if isinstance(x, SeqV):
        i = args[1].as_int()
        n = seq_len(v).as_int()
        if i is None or n is None:
            raise Undecided('insert')
        st.write(r, seq_cat(seq_cat(seq_slice(v, ZERO, lift(i)), SeqList([args[2]])), seq_slice(v, lift(i), lift(n))))
        return UNIT
    k = rd(st, args[1])
    def old(m):
        c = m.pres(k)
        return NONE if c is False else some(m.val(k)) if c is True else IteV(c, some(m.val(k)), NONE)
    o = gate(st, v, old)
    st.write(r, map_op(v, lambda m: m.set(k, args[2])))
    return o

@model('remove', 'remove_entry')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and v.tag == 'occ':
        mr, k = v.fields
        m = st.read(mr)
        o = map_op(m, lambda x: x.val(k))
        st.write(mr, map_op(m, lambda x: x.remove(k)))
        return o
    x = v.a if isinstance(v, IteV) else v
    k = rd(st, args[1])
    if isinstance(x, SeqV):
        i = k
        n = seq_len(v)
        need(I, st, lt(i, n), 'removal index out of bounds', fr, t)
        o = seq_get(v, i)
        st.write(r, seq_cat(seq_slice(v, ZERO, i), seq_slice(v, i + 1, n)))
        return o
    def old(m):
        c = m.pres(k)
        return NONE if c is False else some(m.val(k)) if c is True else IteV(c, some(m.val(k)), NONE)
    o = gate(st, v, old)
    st.write(r, map_op(v, lambda m: m.remove(k)))
    return o

@model('contains_key')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    k = rd(st, args[1])
    return gate(st, v, lambda m: m.pres(k))

@model('entry')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and v.tag == 'guard':
        r, v = lastref(st, v.fields[0])
    k = args[1]
    c = st.decide(gate(st, v, lambda m: m.pres(k)))
    return merge(c, StructV(ENTRY, 0, (StructV('occ', 0, (r, k)),)), StructV(ENTRY, 1, (StructV('vac', 0, (r, k)),)))

def entry_parts(v):
    while isinstance(v, IteV):
        v = v.a
    return v.fields[0].fields

@model('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key')
def _(I, st, f, args, fr, t):
    n = short(f)
    def go(s, e):
        r, k = e.fields[0].fields
        if e.variant == 1:
            if n == 'or_insert':
                d = args[1]
            elif n == 'or_insert_with':
                d = I.callv(args[1], [], s)
            else:
                raise Undecided(n)
            s.write(r, map_op(s.read(r), lambda m: m.set(k, d)))
        return ext(r, ('mk', k))
    return ungate(I, st, args[0], go)

@model('and_modify')
def _(I, st, f, args, fr, t):
    def go(s, e):
        r, k = e.fields[0].fields
        if e.variant == 0:
            I.callv(args[1], [ext(r, ('mk', k))], s)
        return e
    return ungate(I, st, args[0], go)

@model('into_mut')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    if isinstance(v, StructV) and v.tag == 'occ':
        return ext(v.fields[0], ('mk', v.fields[1]))
    raise Undecided('into_mut')

@model('key')
def _(I, st, f, args, fr, t):
    v = rd(st, args[0])
    e = entry_parts(v) if not (isinstance(v, StructV) and v.tag in ('occ', 'vac')) else v.fields
    st.mem[('mapkey', e[1])] = e[1]
    return RefV(('mapkey', e[1]))

# ---- synchronisation (the locking rules are decided by the lock analysis; here a lock gives its contents)
@model('read', 'write', 'lock')
def _(I, st, f, args, fr, t):
    r, v = lastref(st, args[0])
    if isinstance(v, StructV) and v.tag == 'poisoned':
        # a thread panicked while it held the lock
        return StructV(RESULT, 1, (StructV('poison', 0, (StructV('guard', 0, (ext(r, ('f', 0)),)),)),))
    if isinstance(v, StructV) and v.tag == 'rwlock':
        return StructV(RESULT, 0, (StructV('guard', 0, (ext(r, ('f', 0)),)),))
    raise Undecided('lock')

@model('is_poisoned')
def _(I, st, f, args, fr, t):
    v = lastref(st, args[0])[1]
    if isinstance(v, StructV) and v.tag in ('rwlock', 'poisoned'):
        return v.tag == 'poisoned'
    raise Undecided('is_poisoned')

# ---- try
CF = 'core::ops::control_flow::ControlFlow'
@model('branch')
def _(I, st, f, args, fr, t):
    def go(o):
        if o.tag == RESULT:
            return StructV(CF, 0, (o.fields[0],)) if o.variant == 0 else StructV(CF, 1, (StructV(RESULT, 1, (o.fields[0],)),))
        return StructV(CF, 0, (o.fields[0],)) if o.variant == 1 else StructV(CF, 1, (NONE,))
    return gate(st, args[0], go)

@model('from_residual')
def _(I, st, f, args, fr, t):
    def go(s, o):
        if o.tag == RESULT:
            e = o.fields[0]
            if isinstance(e, StructV) and isinstance(e.tag, str) and e.tag in I.mir.adts:
                # the error converts into the declared error type
                rt = strip(f.get('self') or {})
                tgt = strip((rt.get('a') or [{}, {}])[1]) if rt.get('a') else {}
                if tgt.get('p') and tgt['p'] != e.tag:
                    for b in I.mir.roots:
                        if b.get('name') == 'from' and (b.get('impl_self') or {}).get('p') == tgt['p']:
                            return StructV(RESULT, 1, (I.call_body(b, [e], s),))
            return StructV(RESULT, 1, (e,))
        return o
    return ungate(I, st, args[0], go)

# ---- formatting: has no effect on the values considered here
@model('write_fmt', 'write_str', 'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_struct_field1_finish', 'debug_struct_field2_finish', 'pad', 'pad_integral', 'fmt')
def _(I, st, f, args, fr, t):
    return StructV(RESULT, 0, (UNIT,))

@model('from_str', 'new_display', 'new_debug', 'new_const', 'new_v1')
def _(I, st, f, args, fr, t):
    return Opaque('fmt')

@model('integer_min', 'ctpop', 'cold_path', 'assume', 'likely', 'unlikely', 'spin_loop')
def _(I, st, f, args, fr, t):
    if short(f) == 'integer_min':
        return lift(0)
    if short(f) in ('likely', 'unlikely'):
        return args[0]
    return UNIT

@model('max_value', 'min_value')
def _(I, st, f, args, fr, t):
    lo, hi = ints.irange(int_ty(f))
    return lift(hi if short(f) == 'max_value' else lo)

# ------------------------------------------------------------------ lookup
def tail(p):
    return p.split('::')[-1] if p else ''

LOCAL_TRAITS = ('CoefficientField', 'FromDegreeType', 'Basis', 'OrderedBasis', 'BasisWithDegree', 'OrderedBasisWithDegree', 'Vector', 'DenseVector',
                'ResizeableDenseVector', 'VectorWithDegree', 'Algebra', 'FreeTensor', 'VectorKeyExt', 'HallSet')

def lookup(I, f, args, st):
    tr = tail(f.get('trait') or '')
    m = f.get('m') or short(f)
    has = f.get('id') is not None and f['id'] in I.bodies
    if tr in ('FnOnce', 'FnMut', 'Fn') and m in ('call_once', 'call_mut', 'call'):
        return M[m]
    if has and (f.get('rlocal') or f.get('local')):
        if tr in LOCAL_TRAITS and I.contract_first(f, tr, m, args, st):
            from . import contracts
            return contracts.find(I, f, tr, m, args, st)
        return None
    if tr in LOCAL_TRAITS:
        from . import contracts
        return contracts.find(I, f, tr, m, args, st)
    pth = f.get('rp') or f['p']
    if 'ptr::' in pth and 'NonNull' not in pth and m in PM:
        return PM[m]
    if f.get('uns') and m in M:
        return M[m]
    if has:
        # library code with an available body: analysed unless a model says more
        if tail(f.get('rp') or f['p']) in ('min', 'max', 'cloned', 'copied', 'cmp', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'partial_cmp', 'expect_failed', 'unwrap_failed',
                                           'call_once', 'call_mut', 'call', 'as_ref', 'as_mut', 'take', 'replace', 'clone', 'as_deref', 'as_deref_mut', 'is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne', 'reverse', 'clamp', 'into_iter', 'iter'):
            return M.get(m)
        return None
    # a local type's own implementation reached through an unresolved call (dynamic dispatch by value)
    if f.get('trait') and args:
        v = args[0]
        x = None
        try:
            r, x = lastref(st, v)
        except Undecided:
            x = None
        if isinstance(x, StructV) and isinstance(x.tag, str) and x.tag in I.mir.adts:
            b = I.mir.method(x.tag.split('::')[-1], tr, m)
            if b and m not in ('into_iter',):
                if refish(v) and r is not None and refish(st.read(v)):
                    args = [r] + list(args[1:])
                return lambda I, st, f, a, fr, t: I.call_body(b, args, st)
    if not has and f.get('trait') in I.mir.traits:
        # a method the trait (of this crate) provides, called on a type that is not known
        b = I.mir.trait_default(tr, m)
        if b:
            return lambda I, st, f, a, fr, t: I.call_body(b, a, st)
    return M.get(m)
