"""Abstract values: structures whose leaves are terms, references as places, sequences, maps,
elements of an abstract vector space, iterators."""
from .terms import *

class Undef:
    def __repr__(self):
        return 'UNDEF'
UNDEF = Undef()

class StructV:
    __slots__ = ('tag', 'variant', 'fields')
    def __init__(self, tag, variant, fields):
        self.tag, self.variant, self.fields = tag, variant, tuple(fields)
    def __eq__(self, o):
        return isinstance(o, StructV) and self.tag == o.tag and self.variant == o.variant and self.fields == o.fields
    def __hash__(self):
        return hash((self.tag, self.variant))
    def __repr__(self):
        return '%s#%s%r' % (str(self.tag).split('::')[-1], self.variant, self.fields)

UNIT = StructV('tuple', 0, ())
def tup(*xs):
    return StructV('tuple', 0, xs)
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'
RANGE = 'core::ops::range::Range'
NONE = StructV(OPTION, 0, ())
def some(x):
    return StructV(OPTION, 1, (x,))

class IteV:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
    def __eq__(self, o):
        return isinstance(o, IteV) and self.c == o.c and self.a == o.a and self.b == o.b
    def __hash__(self):
        return hash(self.c)
    def __repr__(self):
        return 'if(%s){%r}{%r}' % (show_cond(self.c), self.a, self.b)

class RefV:
    __slots__ = ('loc', 'path')
    def __init__(self, loc, path=()):
        self.loc, self.path = loc, norm_path(path)
    def __eq__(self, o):
        return isinstance(o, RefV) and self.loc == o.loc and self.path == o.path
    def __hash__(self):
        return hash((self.loc, self.path))
    def __repr__(self):
        return '&%s%s' % (self.loc, ''.join('.%s' % (p[1:] if len(p) > 2 else p[1],) for p in self.path))
    def ext(self, *ps):
        return RefV(self.loc, self.path + ps)

def norm_path(path):
    out = []
    for p in path:
        if out and out[-1][0] == 'rng' and p[0] in ('ix', 'rng'):
            r = out.pop()
            if p[0] == 'ix':
                out.append(('ix', r[1] + p[1]))
            else:
                out.append(('rng', r[1] + p[1], r[1] + p[2]))
        else:
            out.append(p)
    return tuple(out)

class FnV:
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f
    def __eq__(self, o):
        return isinstance(o, FnV) and self.f.get('p') == o.f.get('p') and self.f.get('id') == o.f.get('id') and self.f.get('a') == o.f.get('a')
    def __hash__(self):
        return hash(self.f.get('p'))
    def __repr__(self):
        return 'fn %s' % self.f.get('p')

class Opaque:
    __slots__ = ('d',)
    def __init__(self, d):
        self.d = d
    def __eq__(self, o):
        return isinstance(o, Opaque) and self.d == o.d
    def __hash__(self):
        return hash(self.d)
    def __repr__(self):
        return '<%s>' % (self.d,)

# ------------------------------------------------------------------ iterators
class IterV:
    """an indexed iterator: yields item(I, st, k) for k = pos, pos+1, .. while k is below every end"""
    __slots__ = ('pos', 'ends', 'item', 'label')
    def __init__(self, pos, ends, item, label=''):
        if isinstance(ends, Poly):
            ends = (ends,)
        es = []
        for e in ends:
            if e not in es:
                es.append(e)
        cs = [e for e in es if e.as_int() is not None]
        if len(cs) > 1:
            es = [e for e in es if e.as_int() is None] + [lift(min(c.as_int() for c in cs))]
        self.pos, self.ends, self.item, self.label = pos, tuple(es), item, label
    @property
    def end(self):
        r = self.ends[0]
        for e in self.ends[1:]:
            r = pmin(r, e)
        return r
    def more(self):
        return conj(*[lt(self.pos, e) for e in self.ends])
    def at(self, pos):
        return IterV(pos, self.ends, self.item, self.label)
    def __eq__(self, o):
        return isinstance(o, IterV) and self.pos == o.pos and self.ends == o.ends and self.item is o.item
    def __hash__(self):
        return hash(self.pos)
    def __repr__(self):
        return 'iter(%s..%s)' % (show(self.pos), '/'.join(show(e) for e in self.ends))

# ------------------------------------------------------------------ sequences
class SeqV:
    def get(self, i):
        raise NotImplementedError

class SeqList(SeqV):
    """concrete length"""
    def __init__(self, items):
        self.items = tuple(items)
        self.len = lift(len(self.items))
    def get(self, i):
        c = i.as_int()
        if c is not None:
            if 0 <= c < len(self.items):
                return self.items[c]
            raise Undecided('index %s out of %d' % (c, len(self.items)))
        if not self.items:
            return UNDEF
        r = self.items[-1]
        for j in range(len(self.items) - 2, -1, -1):
            r = merge(eq(i, j), self.items[j], r)
        return r
    def __eq__(self, o):
        return isinstance(o, SeqList) and self.items == o.items
    def __hash__(self):
        return hash(len(self.items))
    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.items))

class SeqAtom(SeqV):
    def __init__(self, name, length, mk=None):
        self.name, self.len = name, length
        self.mk = mk or (lambda i: app('el', name, i))
    def get(self, i):
        return self.mk(i)
    def __eq__(self, o):
        return isinstance(o, SeqAtom) and self.name == o.name and self.len == o.len
    def __hash__(self):
        return hash(self.name)
    def __repr__(self):
        return '%s[..%s]' % (self.name, show(self.len))

class SeqFn(SeqV):
    def __init__(self, length, fn):
        self.len, self.fn = length, fn
    def get(self, i):
        return self.fn(i)
    def __repr__(self):
        return 'seq[..%s]' % show(self.len)

class SeqCat(SeqV):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.len = a.len + b.len
    def get(self, i):
        return merge(lt(i, self.a.len), LazyGet(self.a, i), LazyGet(self.b, i - self.a.len))
    def __eq__(self, o):
        return isinstance(o, SeqCat) and self.a == o.a and self.b == o.b
    def __hash__(self):
        return hash(self.a)
    def __repr__(self):
        return '%r ++ %r' % (self.a, self.b)

class SeqStore(SeqV):
    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, idx, val
        self.len = base.len
    def get(self, i):
        return merge(eq(i, self.idx), self.val, LazyGet(self.base, i))
    def __eq__(self, o):
        return isinstance(o, SeqStore) and self.idx == o.idx and self.val == o.val and self.base == o.base
    def __hash__(self):
        return hash(self.idx)
    def __repr__(self):
        return '%r[%s:=%r]' % (self.base, show(self.idx), self.val)

class SeqAdd(SeqV):
    """base with, for every contribution (binders, cond, idx, val), val added at idx for all values of
    the binders ((atom id, count), ...)"""
    def __init__(self, base, contribs):
        self.base, self.contribs = base, tuple(contribs)
        self.len = base.len
    def get(self, i):
        r = self.base.get(i)
        if not isinstance(r, Poly):
            raise Undecided('additive update of a non-number')
        for binders, cond, idx, val in self.contribs:
            r = r + contribution(binders, cond, idx, val, i)
        return r

class SeqPoint(SeqV):
    """base with elements start+k (k<n) replaced by fn(k, old)"""
    def __init__(self, base, start, n, fn):
        self.base, self.start, self.n, self.fn = base, start, n, fn
        self.len = base.len
    def get(self, i):
        k = i - self.start
        c = conj(leq(0, k), lt(k, self.n))
        if c is False:
            return self.base.get(i)
        old = self.base.get(i)
        return merge(c, self.fn(k, old), old)

def contribution(binders, cond, idx, val, i):
    """the sum over the binders of [cond and idx == i] val"""
    d = idx - i
    # eliminate a binder that occurs with coefficient +-1 in the index
    for n, (bv, cnt) in enumerate(binders):
        m = ((bv, 1),)
        c = d.t.get(m)
        if c in (1, -1):
            rest = Poly({k: v for k, v in d.t.items() if k != m})
            if bv in atoms_deep(rest):
                continue
            if any(bv in atoms_deep(b2[1]) for b2 in binders[n + 1:]):
                continue
            sol = rest * lift(-1 / c)
            if any(b2[0] in atoms_deep(sol) for b2 in binders[n + 1:]) and False:
                continue
            env = {bv: sol}
            c2 = conj(leq(0, sol), lt(sol, cnt), subst(cond, env))
            v2 = subst(val, env)
            others = binders[:n] + binders[n + 1:]
            body = ite(c2, v2, ZERO) if c2 is not False else ZERO
            for bv2, cnt2 in reversed(others):
                body = mk_sum(bv2, cnt2, body)
            return body
    body = ite(conj(cond, eq(idx, i)), val, ZERO)
    for bv2, cnt2 in reversed(binders):
        body = mk_sum(bv2, cnt2, body)
    return body

class LazyGet:
    """delays reading the untouched part of a sequence (its index may be out of range there)"""
    __slots__ = ('base', 'i')
    def __init__(self, base, i):
        self.base, self.i = base, i
    def force(self):
        return self.base.get(self.i)

def seq_const(n, v):
    c = n.as_int()
    if c is not None:
        return SeqList([v] * c)
    return SeqFn(n, lambda i: v)

def seq_slice(s, lo, hi):
    if isinstance(s, IteV):
        return merge(s.c, seq_slice(s.a, lo, hi), seq_slice(s.b, lo, hi))
    l, h = lo.as_int(), hi.as_int()
    if l is not None and h is not None and (isinstance(s, SeqList) or h - l <= 64):
        return SeqList([s.get(lift(j)) for j in range(l, h)])
    if l == 0 and hi == s.len:
        return s
    return SeqFn(hi - lo, lambda i: s.get(lo + i))

def seq_resize(s, n, fill):
    if isinstance(s, IteV):
        return merge(s.c, seq_resize(s.a, n, fill), seq_resize(s.b, n, fill))
    if n == s.len:
        return s
    c = n.as_int()
    l = s.len.as_int()
    if c is not None and l is not None:
        return SeqList([s.get(lift(j)) for j in range(min(c, l))] + [fill] * max(0, c - l))
    return SeqFn(n, lambda i: merge(lt(i, s.len), s.get(i), fill))

def seq_cat(a, b):
    if isinstance(a, IteV):
        return merge(a.c, seq_cat(a.a, b), seq_cat(a.b, b))
    if isinstance(b, IteV):
        return merge(b.c, seq_cat(a, b.a), seq_cat(a, b.b))
    la, lb = a.len.as_int(), b.len.as_int()
    if la is not None and lb is not None:
        return SeqList([a.get(lift(j)) for j in range(la)] + [b.get(lift(j)) for j in range(lb)])
    if la == 0:
        return b
    if lb == 0:
        return a
    return SeqCat(a, b)

def seq_store(s, i, v):
    if isinstance(s, IteV):
        return merge(s.c, seq_store(s.a, i, v), seq_store(s.b, i, v))
    if isinstance(s, SeqList):
        c = i.as_int()
        if c is not None:
            if not 0 <= c < len(s.items):
                raise Undecided('store out of range')
            return SeqList(s.items[:c] + (v,) + s.items[c + 1:])
        return SeqList([merge(eq(i, j), v, x) for j, x in enumerate(s.items)])
    if isinstance(s, SeqStore) and s.idx == i:
        return SeqStore(s.base, i, v)
    return SeqStore(s, i, v)

def seq_splice(s, lo, hi, new):
    """s with elements lo..hi replaced by new"""
    if isinstance(s, IteV):
        return merge(s.c, seq_splice(s.a, lo, hi, new), seq_splice(s.b, lo, hi, new))
    l, h, n = lo.as_int(), hi.as_int(), s.len.as_int()
    if l is not None and h is not None and n is not None and not isinstance(new, IteV):
        return SeqList([new.get(lift(j - l)) if l <= j < h else s.get(lift(j)) for j in range(n)])
    if isinstance(new, IteV):
        return merge(new.c, seq_splice(s, lo, hi, new.a), seq_splice(s, lo, hi, new.b))
    return SeqFn(s.len, lambda i: merge(conj(leq(lo, i), lt(i, hi)), LazyGet(new, i - lo), s.get(i)))

def seq_len(s):
    if isinstance(s, IteV):
        return ite(s.c, seq_len(s.a), seq_len(s.b))
    if isinstance(s, SeqV):
        return s.len
    raise Undecided('length of %r' % (s,))

def seq_get(s, i):
    if isinstance(s, IteV):
        return merge(s.c, LazyGet2(s.a, i), LazyGet2(s.b, i))
    if isinstance(s, SeqV):
        return s.get(i)
    raise Undecided('element of %r' % (s,))

class LazyGet2(LazyGet):
    def force(self):
        return seq_get(self.base, self.i)

# ------------------------------------------------------------------ maps
class MapV:
    pass

class MapDict(MapV):
    """explicit entries [(key, present, value)]; keys are pairwise different constants"""
    def __init__(self, entries):
        self.entries = tuple(e for e in entries if e[1] is not False)
    def find(self, k):
        for e in self.entries:
            if e[0] == k:
                return e
            if eq(e[0], k) is not False:
                raise Undecided('key identity')
        return None
    def pres(self, k):
        r = False
        for e in self.entries:
            c = eq(e[0], k)
            if c is True:
                return e[1]
            if c is not False:
                r = cite(c, e[1], r)
        return r
    def val(self, k):
        r = UNDEF
        for e in self.entries:
            c = eq(e[0], k)
            if c is True:
                return e[2]
            if c is not False:
                r = e[2] if r is UNDEF else merge(c, e[2], r)
        return r
    def set(self, k, v):
        if self.entries and any(eq(e[0], k) not in (True, False) for e in self.entries):
            return MapUpd(self, k, True, v)
        e = self.find(k)
        if e:
            return self.__class__([(k, True, v) if x is e else x for x in self.entries])
        return self.__class__(self.entries + ((k, True, v),))
    def put(self, k, v):
        """write the value of a present entry"""
        e = self.find(k)
        if not e:
            raise Undecided('write to a missing entry')
        return self.__class__([(k, e[1], v) if x is e else x for x in self.entries])
    def remove(self, k):
        return self.__class__([x for x in self.entries if x is not self.find(k)])
    def count(self):
        n = ZERO
        for _, p, _ in self.entries:
            n = n + ite(p, ONE, ZERO)
        return n
    def keys_indexed(self):
        es = self.entries
        if any(e[1] is not True for e in es):
            raise Undecided('iteration over an undecided key set')
        return lift(len(es)), lambda i: es[i.as_int()][0] if i.as_int() is not None else (_ for _ in ()).throw(Undecided('entry index'))
    def __eq__(self, o):
        return isinstance(o, MapDict) and self.entries == o.entries
    def __hash__(self):
        return hash(len(self.entries))
    def __repr__(self):
        return '{%s}' % ', '.join('%s%s: %r' % (show(k), '' if p is True else '?(%s)' % show_cond(p), v) for k, p, v in self.entries)

class SortedMap(MapDict):
    """a BTreeMap: its entries are visited in the order of the keys, which has to be known"""
    def __init__(self, entries):
        super().__init__(entries)
        if all(isinstance(e[0], Poly) and e[0].as_int() is not None for e in self.entries):
            self.entries = tuple(sorted(self.entries, key=lambda e: e[0].as_int()))
            self.sorted = True
        else:
            self.sorted = len(self.entries) < 2
    def keys_indexed(self):
        if not self.sorted:
            raise Undecided('order of the keys')
        return super().keys_indexed()

def empty_map(m):
    """the empty map of the same kind"""
    while isinstance(m, MapUpd):
        m = m.base
    return SortedMap(()) if isinstance(m, SortedMap) else EMPTY_MAP

class MapAtom(MapV):
    def __init__(self, name):
        self.name = name
    def pres(self, k):
        a = single_atom(k)
        if a and a[0] == 'app' and a[1] == 'keyat' and a[2] == self.name:
            return True
        return ('b', 'mpres', self.name, k)
    def val(self, k):
        return app('mval', self.name, k)
    def set(self, k, v):
        return MapUpd(self, k, True, v)
    put = set
    def remove(self, k):
        return MapUpd(self, k, False, UNDEF)
    def count(self):
        return app('mlen', self.name, rng=(0, None))
    def keys_indexed(self):
        return self.count(), lambda i: app('keyat', self.name, i)
    def __eq__(self, o):
        return isinstance(o, MapAtom) and o.name == self.name
    def __hash__(self):
        return hash(self.name)
    def __repr__(self):
        return 'map %s' % self.name

class MapUpd(MapV):
    def __init__(self, base, k, p, v):
        self.base, self.k, self.p, self.v = base, k, p, v
    def pres(self, k):
        return cite(eq(k, self.k), self.p, self.base.pres(k))
    def val(self, k):
        return merge(eq(k, self.k), self.v, self.base.val(k))
    def set(self, k, v):
        if k == self.k:
            return MapUpd(self.base, k, True, v)
        return MapUpd(self, k, True, v)
    def put(self, k, v):
        if k == self.k:
            return MapUpd(self.base, k, self.p, v)
        return MapUpd(self, k, self.pres(k), v)
    def remove(self, k):
        if k == self.k:
            return MapUpd(self.base, k, False, UNDEF)
        return MapUpd(self, k, False, UNDEF)
    def count(self):
        raise Undecided('size of an updated map')
    def keys_indexed(self):
        raise Undecided('iteration over an updated map')
    def __eq__(self, o):
        return isinstance(o, MapUpd) and (self.k, self.p, self.v) == (o.k, o.p, o.v) and self.base == o.base
    def __hash__(self):
        return hash(self.k)
    def __repr__(self):
        return '%r[%s:=%s %r]' % (self.base, show(self.k), show_cond(self.p), self.v)

class MapFn(MapV):
    def __init__(self, pres, val):
        self.pres, self.val = pres, val
    def set(self, k, v):
        return MapUpd(self, k, True, v)
    def put(self, k, v):
        return MapUpd(self, k, self.pres(k), v)
    def remove(self, k):
        return MapUpd(self, k, False, UNDEF)
    def count(self):
        raise Undecided('size of a computed map')
    def keys_indexed(self):
        raise Undecided('iteration over a computed map')

EMPTY_MAP = MapDict(())

def map_op(m, f):
    if isinstance(m, IteV):
        return merge(m.c, map_op(m.a, f), map_op(m.b, f))
    if isinstance(m, MapV):
        return f(m)
    raise Undecided('not a map: %r' % (m,))

# ------------------------------------------------------------------ elements of an abstract vector space
class LinV:
    """a formal linear combination {vector monomial: coefficient}; monomials are
    ('atom', name), ('key', k), ('prod', left monomial, right monomial, degree)"""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c.t}
    def __eq__(self, o):
        return isinstance(o, LinV) and self.t == o.t
    def __hash__(self):
        return hash(frozenset(self.t.items()))
    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, ZERO) + c
        return LinV(r)
    def scale(self, s):
        return LinV({m: c * s for m, c in self.t.items()})
    def __repr__(self):
        return ' + '.join('(%s)*%s' % (show(c), show_mono(m)) for m, c in self.t.items()) or '0vec'

def show_mono(m):
    if m[0] == 'atom':
        return str(m[1])
    if m[0] == 'key':
        return 'e[%s]' % (show(m[1]) if isinstance(m[1], Poly) else m[1])
    if m[0] == 'word':
        return '*'.join('%s_%d' % w for w in m[1]) or '1'
    if m[0] != 'prod':
        return str(m)
    return '(%s.%s)_<=%s' % (show_mono(m[1]), show_mono(m[2]), show(m[3]) if isinstance(m[3], Poly) else m[3])

LZERO = LinV({})
def lin_atom(name):
    return LinV({('atom', name): ONE})
UNIT_KEY = [None]       # graded words: the key of the empty word
def lin_key(k, c=ONE):
    if k == UNIT_KEY[0] and k is not None:
        return LinV({('word', ()): c})
    return LinV({('key', k): c})

def lin_prod(a, b, deg, coef=ONE):
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = ('prod', m1, m2, deg)
            r[m] = r.get(m, ZERO) + c1 * c2 * coef
    return LinV(r)

def lin_coef(v, k):
    """coefficient of the key k"""
    r = ZERO
    for m, c in v.t.items():
        if m[0] == 'atom':
            p = ('b', 'vpres', m[1], k)
            r = r + c * ite(p, app('vco', m[1], k), ZERO)
        elif m[0] == 'key':
            r = r + c * ite(eq(m[1], k), ONE, ZERO)
        elif m[0] == 'word':
            if k != UNIT_KEY[0]:
                raise Undecided('coefficient of a key that is not the empty word')
            if m[1] == ():
                r = r + c
        else:
            r = r + c * app('vco', m, k)
    return r

def lin_pres(v, k):
    if len(v.t) == 0:
        return ('b', 'vpres', 'zero', k)
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if m[0] == 'atom' and c == ONE:
            return ('b', 'vpres', m[1], k)
    return ('b', 'vpres', frozenset(v.t.items()), k)

# ------------------------------------------------------------------ generic operations
def force(x):
    return x.force() if isinstance(x, LazyGet) else x

def is_cond(x):
    return isinstance(x, bool) or (isinstance(x, tuple) and len(x) > 0 and x[0] in ('le', 'eq', 'b', 'not', 'and', 'or'))

def merge(c, a, b):
    """the value that is a if c, else b"""
    if c is True:
        return force(a)
    if c is False:
        return force(b)
    if c[0] == 'not':
        return merge(c[1], b, a)
    a, b = force(a), force(b)
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if is_cond(a) and is_cond(b):
        return cite(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.tag == b.tag and a.variant == b.variant and len(a.fields) == len(b.fields):
        if a.fields == b.fields:
            return a
        return StructV(a.tag, a.variant, [merge(c, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, IteV) and a.c == c:
        a = a.a
    if isinstance(b, IteV) and b.c == c:
        b = b.b
    if isinstance(a, SeqList) and isinstance(b, SeqList) and len(a.items) == len(b.items):
        if a.items == b.items:
            return a
        return SeqList([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SeqStore) and a.base is b:
        return SeqStore(b, a.idx, merge(c, a.val, b.get(a.idx)))
    if isinstance(b, SeqStore) and b.base is a:
        return SeqStore(a, b.idx, merge(c, a.get(b.idx), b.val))
    if isinstance(a, SeqAdd) and a.base is b:
        return SeqAdd(b, [(bs, conj(c, cc), i, v) for bs, cc, i, v in a.contribs])
    if isinstance(b, SeqAdd) and b.base is a:
        return SeqAdd(a, [(bs, conj(neg(c), cc), i, v) for bs, cc, i, v in b.contribs])
    if isinstance(a, LinV) and isinstance(b, LinV):
        r = {}
        for m in set(a.t) | set(b.t):
            r[m] = ite(c, a.t.get(m, ZERO), b.t.get(m, ZERO))
        return LinV(r)
    if isinstance(a, MapDict) and isinstance(b, MapDict):
        out = []
        seen = []
        for k, p, v in a.entries:
            seen.append(k)
            out.append((k, cite(c, p, b.pres(k)), merge(c, v, b.val(k))))
        for k, p, v in b.entries:
            if k not in seen:
                out.append((k, conj(neg(c), p), v))
        return (SortedMap if isinstance(a, SortedMap) else MapDict)(out)
    if isinstance(a, MapUpd) and (a.base is b or (isinstance(b, MapUpd) and a.base is b.base and a.k == b.k)):
        p2, v2 = (b.pres(a.k), b.val(a.k))
        return MapUpd(a.base, a.k, cite(c, a.p, p2), merge(c, a.v, v2))
    if isinstance(b, MapUpd) and b.base is a:
        return MapUpd(a, b.k, cite(c, a.pres(b.k), b.p), merge(c, a.val(b.k), b.v))
    if isinstance(a, IterV) and isinstance(b, IterV) and a.item is b.item and len(a.ends) == len(b.ends):
        return IterV(ite(c, a.pos, b.pos), [ite(c, x, y) for x, y in zip(a.ends, b.ends)], a.item, a.label)
    if a == b:
        return a
    return IteV(c, a, b)

def vread(v, path, st=None):
    for n, p in enumerate(path):
        v = force(v)
        if isinstance(v, IteV):
            return merge(v.c, vread(v.a, path[n:], st), vread(v.b, path[n:], st))
        if v is UNDEF:
            return UNDEF
        k = p[0]
        if k == 'f':
            if isinstance(v, StructV):
                if p[1] >= len(v.fields):
                    raise Undecided('field %s of %r' % (p[1], v))
                v = v.fields[p[1]]
            else:
                raise Undecided('field of %r' % (v,))
        elif k == 'v':
            if isinstance(v, StructV):
                if v.variant != p[1]:
                    return UNDEF
            else:
                raise Undecided('variant of %r' % (v,))
        elif k == 'ix':
            v = seq_get(v, p[1])
        elif k == 'rng':
            v = seq_slice(v, p[1], p[2])
        elif k == 'mk':
            v = map_op(v, lambda m: m.val(p[1]))
        elif k == 'co':
            if not isinstance(v, LinV):
                raise Undecided('coefficient of %r' % (v,))
            v = lin_coef(v, p[1])
        else:
            raise Undecided('path %r' % (p,))
    return force(v)

def vwrite(v, path, new):
    if not path:
        return new
    v = force(v)
    if isinstance(v, IteV):
        return merge(v.c, vwrite(v.a, path, new), vwrite(v.b, path, new))
    p = path[0]
    k = p[0]
    if v is UNDEF:
        if k == 'f':
            return StructV('partial', 0, [UNDEF] * p[1] + [vwrite(UNDEF, path[1:], new)])
        return UNDEF
    if k == 'f':
        if not isinstance(v, StructV):
            raise Undecided('write to field of %r' % (v,))
        fs = list(v.fields)
        while len(fs) <= p[1]:
            fs.append(UNDEF)
        fs[p[1]] = vwrite(fs[p[1]], path[1:], new)
        return StructV(v.tag, v.variant, fs)
    if k == 'v':
        if isinstance(v, StructV) and v.variant != p[1]:
            return v
        return vwrite(v, path[1:], new)
    if k == 'ix':
        if len(path) == 1:
            return seq_store(v, p[1], new)
        return seq_store(v, p[1], vwrite(seq_get(v, p[1]), path[1:], new))
    if k == 'rng':
        if len(path) == 1:
            return seq_splice(v, p[1], p[2], new)
        raise Undecided('write into a range')
    if k == 'mk':
        if len(path) == 1:
            return map_op(v, lambda m: m.put(p[1], new))
        return map_op(v, lambda m: m.put(p[1], vwrite(m.val(p[1]), path[1:], new)))
    if k == 'co':
        old = lin_coef(v, p[1])
        return v + lin_key(p[1], new - old)
    raise Undecided('write path %r' % (p,))
