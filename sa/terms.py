"""Terms of the abstract domain: polynomials over interned atoms, and conditions.

A number (machine integer or field element) is a polynomial with rational coefficients over atoms.
Negative exponents stand for multiplicative inverses of field atoms.  Conditions are python bools or
tuples:  ('le', p) p<=0 over the integers;  ('eq', p) p==0;  ('b', key...) an opaque predicate;
('not', c);  ('and', (c..));  ('or', (c..)).
Nothing here talks about program paths: two terms are compared by normal form (`canon_equal`)."""
from fractions import Fraction
import time
import itertools

class Undecided(Exception):
    pass

_ids = {}
_atoms = []
_range = {}
_lifts = {}
_version = [0]       # changes whenever a range does

def intern(atom):
    i = _ids.get(atom)
    if i is None:
        i = len(_atoms)
        _ids[atom] = i
        _atoms.append(atom)
    return i

def atom_of(i):
    return _atoms[i]

class Poly:
    __slots__ = ('t', '_h', '_r')

    def __init__(self, t):
        self.t = t
        self._h = self._r = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def as_int(self):
        c = self.const()
        if c is None or c.denominator != 1:
            return None
        return int(c)

    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if self.is_const():
            c = self.t.get((), 0)
            if not c:
                return ZERO
            if c == 1:
                return o
            return Poly({m: v * c for m, v in o.t.items()})
        if o.is_const():
            return o * self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
MONE = Poly({(): Fraction(-1)})

def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        if not x:
            return ZERO
        if -1024 < x < 1024 and x.denominator == 1:
            x = int(x)
            r = _lifts.get(x)
            if r is None:
                r = _lifts[x] = Poly({(): Fraction(x)})
            return r
        return Poly({(): Fraction(x)})
    raise Undecided('not a number: %r' % (x,))

def atom(a, rng=None):
    i = intern(a)
    if rng is not None and _range.get(i) != rng:
        _range[i] = rng
        _version[0] += 1
    return Poly({((i, 1),): Fraction(1)})

def var(name, lo=None, hi=None):
    return atom(('v', name), (lo, hi) if (lo is not None or hi is not None) else None)

def app(name, *args, rng=None):
    if name == 'fn' and isinstance(args[0], Poly) and not args[0].t:
        return ZERO
    return atom(('app', name) + tuple(args), rng)

def single_atom(p):
    """the atom if p is exactly one atom with coefficient 1"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    return None

def inv(p):
    """multiplicative inverse in the field of fractions"""
    if not p.t:
        return app('1/0')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((k, -e) for k, e in m): 1 / c})
    # canonical: make leading coefficient 1
    lead = min(p.t)
    c = p.t[lead]
    q = p * lift(1 / c)
    return atom(('inv', q)) * lift(1 / c)

# ------------------------------------------------------------------ ranges
def atom_range(i):
    r = _range.get(i)
    if r is not None:
        return r
    a = _atoms[i]
    if a[0] == 'ite':
        l1, h1 = prange(a[2])
        l2, h2 = prange(a[3])
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    return (None, None)

def prange(p):
    """interval of an integer polynomial; None = unbounded"""
    r = p._r
    if r is not None and r[0] == _version[0]:
        return r[1]
    v = _prange(p)
    p._r = (_version[0], v)
    return v

def _prange(p):
    lo, hi = 0, 0
    for m, c in p.t.items():
        if c.denominator == 1:
            c = c.numerator
        if len(m) == 1 and m[0][1] == 1:
            l, h = atom_range(m[0][0])
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * c
            hi = None if hi is None or h is None else hi + h * c
            if lo is None and hi is None:
                return (None, None)
            continue
        l, h = 1, 1
        for k, e in m:
            al, ah = atom_range(k)
            if e < 0:
                return (None, None)
            for _ in range(e):
                if l is not None and h is not None and al is not None and ah is not None:
                    cand = [l * al, l * ah, h * al, h * ah]
                    l, h = min(cand), max(cand)
                elif l is not None and l >= 0 and al is not None and al >= 0:
                    l, h = l * al, None if (h is None or ah is None) else h * ah
                else:
                    l, h = None, None
        if c < 0:
            l, h = h, l
        l = None if l is None else l * c
        h = None if h is None else h * c
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            return (None, None)
    return (lo, hi)

# ------------------------------------------------------------------ conditions
def le(p):      # p <= 0 (integers)
    p = lift(p)
    c = p.const()
    if c is not None:
        return c <= 0
    lo, hi = prange(p)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    if lo is not None and hi is not None and len(p.t) > 1:
        k = p.t.get((), 0)
        if k in (0, 1):
            p = canonical(p - lift(k)) + lift(k)
    return ('le', p)

def canonical(p):
    """a polynomial of the same sign whose positional weights are the least possible"""
    ds = []
    while True:
        d = digits(p)
        if d is None or d[0].is_const():
            break
        ds.append(d[1])
        p = d[0]
    if not ds:
        return p
    out, w, top = ZERO, 1, 0
    for r in ds + [p]:
        out = out + r * lift(w)
        lo, hi = prange(r)
        top += max(abs(int(lo)), abs(int(hi))) * w
        w = top + 1
    return out

def digits(p):
    """(Q, r): p = g*Q + r with |r| < g, both not constant (p written in positional digits), else None"""
    cs = sorted({abs(c) for m, c in p.t.items() if m != ()})
    if len(cs) < 2 or any(c.denominator != 1 for c in cs):
        return None
    for g in cs[1:]:
        lowv = [m for m, c in p.t.items() if m != () and c % g]
        if not lowv or any(abs(p.t[m]) >= g for m in lowv):
            continue
        r = Poly({m: p.t[m] for m in lowv})
        q = Poly({m: c / g for m, c in p.t.items() if m != () and not c % g})
        k = p.t.get((), Fraction(0))
        if k.denominator != 1:
            return None
        lo, hi = prange(r)
        if lo is None or hi is None:
            continue
        # the constant's share of each digit: keep |r| < g
        for k1 in (int(k) % g, int(k) % g - g):
            if -g < lo + k1 and hi + k1 < g:
                return q + lift((int(k) - k1) // g), r + lift(k1)
    return None

def lt(a, b):
    return le(lift(a) - lift(b) + 1)

def leq(a, b):
    return le(lift(a) - lift(b))

def eq(a, b=0):
    p = lift(a) - lift(b)
    c = p.const()
    if c is not None:
        return c == 0
    lo, hi = prange(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if lo is not None and hi is not None and len(p.t) > 2:
        d = digits(p)
        if d is not None:
            return conj(eq(d[0]), eq(d[1]))
    lead = min(p.t)
    if p.t[lead] < 0:
        p = -p
    return ('eq', p)

_negs = {}
def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'not':
        return c[1]
    r = _negs.get(c)
    if r is None:
        if k == 'le':
            r = le(1 - c[1])
        elif k == 'and':
            r = disj(*[neg(x) for x in c[1]])
        elif k == 'or':
            r = conj(*[neg(x) for x in c[1]])
        else:
            r = ('not', c)
        if len(_negs) > 400000:
            _negs.clear()
        _negs[c] = r
    return r

def _junction(kind, dual, unit, cs):
    """flattened conjunction ('and', 'or', True) or disjunction ('or', 'and', False); a member of a
    nested dual junction whose negation stands at the top level drops out of it"""
    out = {}
    todo = list(reversed(cs))
    while todo:
        c = todo.pop()
        if c is unit:
            continue
        if c is (not unit):
            return not unit
        if c[0] == kind:
            todo.extend(reversed(c[1]))
        elif c not in out:
            out[c] = True
    while True:
        negs = {neg(c): c for c in out}
        for c in out:
            if c in negs:
                return not unit
        change = False
        for c in list(out):
            if c[0] != dual:
                continue
            if any(x in out for x in c[1]):
                # absorbed: the dual junction follows from one of its members
                del out[c]
                change = True
                continue
            rest = tuple(x for x in c[1] if x not in negs)
            if len(rest) == len(c[1]):
                continue
            change = True
            if not rest:
                return not unit
            if len(rest) > 1:
                out = {(k if k != c else (dual, rest)): True for k in out}
                continue
            x = rest[0]
            if x[0] == kind:
                new = {}
                for k in out:
                    if k == c:
                        for y in x[1]:
                            new[y] = True
                    else:
                        new[k] = True
                out = new
            else:
                out = {(k if k != c else x): True for k in out}
            break
        if not change:
            break
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return (kind, tuple(out))

def conj(*cs):
    return _junction('and', 'or', True, cs)

def disj(*cs):
    return _junction('or', 'and', False, cs)

def cite(c, a, b):
    """if-then-else on conditions"""
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return disj(conj(c, a), conj(neg(c), b))

def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'eq' and vanishes(b - a, c[1]):
        return b                     # where the condition holds the two are the same anyway
    # prune nested occurrences of the same condition
    a = assume_poly(a, c, True)
    b = assume_poly(b, c, False)
    if a == b:
        return a
    return atom(('ite', c, a, b))

def vanishes(d, p):
    """d is zero wherever p is: d is a multiple of p (p one monomial, or d a constant multiple)"""
    if not d.t or not p.t:
        return not d.t
    if len(p.t) == 1:
        (m, _), = p.t.items()
        for n in d.t:
            e = dict(n)
            if not all((e.get(k, 0) >= x if x > 0 else e.get(k, 0) == x) for k, x in m):
                return False
        return True
    if len(d.t) != len(p.t):
        return False
    m = next(iter(p.t))
    if m not in d.t:
        return False
    return not (d - p * lift(d.t[m] / p.t[m])).t

def pmin(a, b):
    return ite(leq(a, b), a, b)

def pmax(a, b):
    return ite(leq(a, b), b, a)

_assumed = {}
def assume_poly(p, c, val):
    for m in p.t:
        for k, _ in m:
            a = _atoms[k]
            if a[0] == 'ite':
                key = (p, c, val)
                r = _assumed.get(key)
                if r is None:
                    tick()
                    if len(_assumed) > 200000:
                        _assumed.clear()
                    r = _assumed[key] = subst(p, {}, {c: val})
                return r
    return p

# ------------------------------------------------------------------ substitution
def subst(x, env, conds=None, memo=None):
    """replace atoms (env: atom id -> Poly) and conditions (conds: cond -> bool), deeply"""
    if memo is None:
        memo = {}
    return _subst(x, env, conds or {}, memo)

def _subst(x, env, conds, memo):
    if isinstance(x, Poly):
        if x.is_const():
            return x
        key = x
        if key in memo:
            return memo[key]
        r = ZERO
        changed = False
        for m, c in x.t.items():
            t = lift(c)
            keep = []
            for k, e in m:
                q = _subst_atom(k, env, conds, memo)
                if q is None:
                    keep.append((k, e))
                else:
                    changed = True
                    t = t * (q ** e if e > 0 else inv(q) ** (-e))
            if len(keep) == len(m):
                r = r + Poly({m: c})
            else:
                r = r + t * Poly({tuple(keep): Fraction(1)})
        if not changed:
            r = x
        memo[key] = r
        return r
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, tuple):
        return _subst_cond(x, env, conds, memo) if x and x[0] in ('le', 'eq', 'b', 'not', 'and', 'or') else \
            tuple(_subst(y, env, conds, memo) for y in x)
    return x

def _subst_cond(c, env, conds, memo):
    if c in conds:
        return conds[c]
    k = c[0]
    if k == 'le':
        n = _subst(c[1], env, conds, memo)
        if n is c[1]:
            if conds:
                nc = neg(c)
                if nc in conds:
                    return not conds[nc]
            return c
        r = le(n)
        return conds.get(r, r) if not isinstance(r, bool) else r
    if k == 'eq':
        n = _subst(c[1], env, conds, memo)
        if n is c[1]:
            return c
        r = eq(n)
        return conds.get(r, r) if not isinstance(r, bool) else r
    if k == 'not':
        if isinstance(c[1], bool):
            return not c[1]
        n = _subst_cond(c[1], env, conds, memo)
        return c if n is c[1] else neg(n)
    if k in ('and', 'or'):
        key = ('c', c)
        if key in memo:
            return memo[key]
        ys = [_subst(y, env, conds, memo) for y in c[1]]
        if all(x is y for x, y in zip(ys, c[1])):
            r = c
        else:
            r = conj(*ys) if k == 'and' else disj(*ys)
        memo[key] = r
        return r
    # ('b', name, args...)
    n = ('b',) + tuple(_subst(y, env, conds, memo) for y in c[1:])
    if all(x is y for x, y in zip(n, c)):
        n = c
    n = rewrite_pred(n)
    if isinstance(n, bool):
        return n
    return conds.get(n, n)

_pred_rules = {}
_app_rules = {}
# a coefficient function (the function given to multiply-and-accumulate) keeps zero
_app_rules['fn'] = lambda x: app('fn', x) if not isinstance(x, Poly) or x.t else ZERO

def rewrite_pred(n):
    f = _pred_rules.get(n[1])
    return f(n) if f else n

def _subst_atom(i, env, conds, memo):
    if i in env:
        return env[i]
    key = ('a', i)
    if key in memo:
        return memo[key]
    a = _atoms[i]
    k = a[0]
    r = None
    if k == 'ite':
        c = _subst_cond(a[1], env, conds, memo)
        if c is True:
            r = _subst(a[2], env, conds, memo)
        elif c is False:
            r = _subst(a[3], env, conds, memo)
        else:
            x, y = _subst(a[2], env, conds, memo), _subst(a[3], env, conds, memo)
            if c is not a[1] or x is not a[2] or y is not a[3]:
                r = ite(c, x, y)
    elif k == 'inv':
        q = _subst(a[1], env, conds, memo)
        if q is not a[1]:
            r = inv(q)
    elif k in ('app',):
        args = tuple(_subst(y, env, conds, memo) for y in a[2:])
        if any(p is not q for p, q in zip(args, a[2:])):
            f = _app_rules.get(a[1])
            r = f(*args) if f else app(a[1], *args, rng=_range.get(i))
    elif k == 'sum':
        # ('sum', bv, n, body)
        bv, n, body = a[1], a[2], a[3]
        n2 = _subst(n, env, conds, memo)
        b2 = _subst(body, env, conds, memo)
        if n2 is not n or b2 is not body:
            r = mk_sum(bv, n2, b2)
    memo[key] = r
    return r

def mk_sum(bv, n, body):
    """sum of body for bv in 0..n (bv: atom id)"""
    c = n.as_int()
    if c is not None:
        if c > 400:
            raise Undecided('sum too long')
        r = ZERO
        for j in range(max(0, c)):
            r = r + subst(body, {bv: lift(j)})
        return r
    if not body.t:
        return ZERO
    return atom(('sum', bv, n, body))

def atoms_deep(x, out=None):
    """all atom ids occurring anywhere"""
    if out is None:
        out = set()
    if isinstance(x, Poly):
        for m in x.t:
            for k, _ in m:
                if k not in out:
                    out.add(k)
                    atoms_deep(_atoms[k], out)
    elif isinstance(x, tuple):
        for y in x:
            atoms_deep(y, out)
    return out

def conds_deep(x, out=None, seen=None):
    """atomic conditions occurring anywhere (le/eq/b)"""
    if out is None:
        out, seen = [], set()
    if isinstance(x, Poly):
        for m in x.t:
            for k, _ in m:
                if k not in seen:
                    seen.add(k)
                    conds_deep(_atoms[k], out, seen)
    elif isinstance(x, tuple) and x:
        if x[0] in ('le', 'eq', 'b') and x not in out:
            conds_deep(x[1:], out, seen)
            if x not in out:
                out.append(x)
        else:
            for y in x:
                conds_deep(y, out, seen)
    return out

# ------------------------------------------------------------------ display
def show_atom(a):
    if a[0] == 'v':
        return str(a[1])
    if a[0] == 'ite':
        return '(if %s then %s else %s)' % (show_cond(a[1]), show(a[2]), show(a[3]))
    if a[0] == 'inv':
        return '1/(%s)' % show(a[1])
    if a[0] == 'app':
        return '%s(%s)' % (a[1], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in a[2:]))
    if a[0] == 'sum':
        return 'sum[%s<%s](%s)' % (show_atom(_atoms[a[1]]), show(a[2]), show(a[3]))
    return str(a)

def show(p):
    if not isinstance(p, Poly):
        return show_cond(p) if isinstance(p, (tuple, bool)) else str(p)
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items(), key=lambda kv: str(kv[0])):
        s = '*'.join(show_atom(_atoms[k]) + ('' if e == 1 else '^%d' % e) for k, e in m)
        if not s:
            parts.append(str(c))
        elif c == 1:
            parts.append(s)
        elif c == -1:
            parts.append('-' + s)
        else:
            parts.append('%s*%s' % (c, s))
    return ' + '.join(parts).replace('+ -', '- ')

def show_cond(c):
    if isinstance(c, bool):
        return str(c).lower()
    if c[0] == 'le':
        return '%s <= 0' % show(c[1])
    if c[0] == 'eq':
        return '%s == 0' % show(c[1])
    if c[0] == 'not':
        return 'not(%s)' % show_cond(c[1])
    if c[0] in ('and', 'or'):
        return '(' + (' %s ' % c[0]).join(show_cond(x) for x in c[1]) + ')'
    return '%s(%s)' % (c[1], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in c[2:]))

# ------------------------------------------------------------------ deciding equality
def solve_linear(p):
    """p == 0 solved for one atom that occurs linearly and nowhere else: (atom id, Poly)"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            k = m[0][0]
            if _atoms[k][0] not in ('v', 'app'):
                continue
            if any(k2 == k for m2 in p.t if m2 != m for k2, _ in m2):
                continue
            rest = Poly({m2: c2 for m2, c2 in p.t.items() if m2 != m})
            if k in atoms_deep(rest):
                continue
            return k, rest * lift(Fraction(-1) / c)
    return None

# the obligation under analysis is given up (undecided) at this time
deadline = [None]
def tick():
    if deadline[0] is not None and time.time() > deadline[0]:
        raise OutOfTime('out of time')

class OutOfTime(Undecided):
    pass

class Budget:
    def __init__(self, n):
        self.n = n
    def use(self):
        self.n -= 1
        if self.n < 0:
            raise Undecided('case split budget')
        tick()

def differ(a, b, facts=(), budget=None):
    """None if a and b (Poly or cond) are equal under the facts (list of (cond,bool)) in every case of
    the conditions they contain; otherwise the list of case assumptions under which they differ."""
    if budget is None:
        budget = Budget(4096)
    return _differ(a, b, list(facts), budget)

def _apply(x, facts):
    conds = {c: v for c, v in facts}
    x = subst(x, {}, conds)
    for p in equalities(facts):
        s = solve_linear(p)
        if s:
            x = subst(x, {s[0]: s[1]}, conds)
    return x

def equalities(facts):
    """terms that are zero by the facts: equations, and pairs of opposite inequalities"""
    out = []
    les = []
    todo = list(facts)
    while todo:
        c, v = todo.pop()
        if not isinstance(c, tuple):
            continue
        if c[0] == 'not':
            todo.append((c[1], not v))
        elif (c[0] == 'and' and v) or (c[0] == 'or' and not v):
            todo += [(x, v) for x in c[1]]
        elif c[0] == 'eq' and v:
            out.append(c[1])
        elif c[0] == 'le':
            les.append(c[1] if v else 1 - c[1])
    s = set(les)
    for p in les:
        if -p in s and -p not in out and p not in out:
            out.append(p)
    return out

def _differ(a, b, facts, budget):
    budget.use()
    if facts:
        a, b = _apply(a, facts), _apply(b, facts)
    if a == b:
        return None
    if isinstance(a, Poly) != isinstance(b, Poly):
        return facts
    if isinstance(a, Poly):
        d = a - b
        cs = conds_deep(d)
        if not d.t:
            return None
        if not cs:
            return _possible(facts, budget)
    else:
        cs = conds_deep(a)
        conds_deep(b, cs, set())
        if not cs:
            return _possible(facts, budget) if a != b else None
    # split on an innermost condition
    c = cs[0]
    for v in (True, False):
        nf = facts + [(c, v)]
        if not consistent(nf):
            continue
        r = _differ(a, b, nf, budget)
        if r is not None:
            return r
    return None

def _possible(facts, budget):
    """the facts (with compound ones split into atomic ones) if they are not shown contradictory"""
    budget.use()
    atomic, rest = [], []
    todo = list(facts)
    while todo:
        c, v = todo.pop(0)
        if isinstance(c, bool):
            if c != v:
                return None
        elif c[0] == 'not':
            todo.append((c[1], not v))
        elif (c[0] == 'and' and v) or (c[0] == 'or' and not v):
            todo += [(x, v) for x in c[1]]
        elif c[0] in ('and', 'or'):
            rest.append((c, v))
        elif (c, v) not in atomic:
            atomic.append((c, v))
    if not consistent(atomic):
        return None
    conds = dict(atomic)
    for n, (c, v) in enumerate(rest):
        c2 = subst(c, {}, conds)
        if isinstance(c2, bool):
            if c2 != v:
                return None
            continue
        x = c2
        while x[0] in ('not', 'and', 'or'):
            x = x[1] if x[0] == 'not' else x[1][0]
        for val in (True, False):
            r = _possible(atomic + [(x, val)] + [(c2, v)] + rest[n + 1:], budget)
            if r is not None:
                return r
        return None
    # conditions inside the terms of the facts
    for n, (c, v) in enumerate(atomic):
        inner = conds_deep(c[1:])
        if not inner:
            continue
        others = {x: y for x, y in atomic if x != c}
        c2 = subst(c, {}, others)
        others_l = atomic[:n] + atomic[n + 1:]
        if c2 != c:
            return _possible(others_l + [(c2, v)], budget)
        for val in (True, False):
            r = _possible(atomic + [(inner[0], val)], budget)
            if r is not None:
                return r
        return None
    if not linear_possible(atomic):
        return None
    return atomic

def is_integer(p):
    return all(k in _range for m in p.t for k, _ in m)

def linear_possible(facts, cap=160):
    if not _linear_possible(facts, cap):
        return False
    # integers that differ are apart by one
    facts = list(facts)
    changed = True
    while changed:
        changed = False
        for n, (c, v) in enumerate(facts):
            if isinstance(c, tuple) and c[0] == 'eq' and not v and is_integer(c[1]):
                rest = facts[:n] + facts[n + 1:]
                lo = _linear_possible(rest + [(('le', c[1] + 1), True)], cap)
                hi = _linear_possible(rest + [(('le', 1 - c[1]), True)], cap)
                if not lo and not hi:
                    return False
                if not lo or not hi:
                    facts = rest + [(('le', c[1] + 1) if lo else ('le', 1 - c[1]), True)]
                    changed = True
                    break
    return True

def _linear_possible(facts, cap=160):
    """False if the linear inequalities among the facts (and the ranges of their atoms) contradict"""
    rows = []
    def add(p):
        if p.is_const():
            if p.t.get((), 0) > 0:
                return False
            return True
        g = max(abs(c) for m, c in p.t.items() if m)
        p = p * lift(1 / g)
        if p not in rows:
            rows.append(p)
        return True
    ids = set()
    for c, v in facts:
        if not isinstance(c, tuple):
            continue
        if c[0] == 'le':
            ps = [c[1] if v else 1 - c[1]]
        elif c[0] == 'eq' and v:
            ps = [c[1], -c[1]]
        else:
            continue
        for p in ps:
            if any(sum(abs(e) for _, e in m) > 1 for m in p.t):
                continue
            if not add(p):
                return False
            ids |= {k for m in p.t for k, _ in m}
    for i in ids:
        lo, hi = atom_range(i)
        x = Poly({((i, 1),): Fraction(1)})
        if lo is not None:
            add(lift(lo) - x)
        if hi is not None:
            add(x - lift(hi))
    for i in sorted(ids):
        m = ((i, 1),)
        pos = [p for p in rows if p.t.get(m, 0) > 0]
        neg_ = [p for p in rows if p.t.get(m, 0) < 0]
        rows = [p for p in rows if m not in p.t]
        if len(rows) + len(pos) * len(neg_) > cap:
            return True
        for p in pos:
            for q in neg_:
                r = p * lift(1 / p.t[m]) + q * lift(-1 / q.t[m])
                if not add(r):
                    return False
    return True

def consistent(facts):
    """cheap consistency of a set of facts: equalities are applied to the others, and difference
    bounds on the same linear form must not contradict"""
    conds = {}
    env = {}
    bounds = {}
    for c, v in facts:
        if isinstance(c, bool):
            if c != v:
                return False
            continue
        c2 = subst(c, env) if env else c
        if isinstance(c2, bool):
            if c2 != v:
                return False
            continue
        if c2 in conds and conds[c2] != v:
            return False
        n = neg(c2)
        if not isinstance(n, bool) and n in conds and conds[n] == v:
            return False
        conds[c2] = v
        if c2[0] == 'eq' and v:
            s = solve_linear(c2[1])
            if s:
                env[s[0]] = s[1]
        if c2[0] == 'le':
            p = c2[1] if v else 1 - c2[1]
            k = p.t.get((), Fraction(0))
            q = p - k
            bounds[q] = min(bounds.get(q, -k), -k)     # q <= -k
    for q, u in bounds.items():
        nq = -q
        if nq in bounds and -bounds[nq] > u:
            return False
    if env:
        for c, v in facts:
            c2 = c
            for _ in range(3):
                c2 = subst(c2, env)
            if isinstance(c2, bool) and c2 != v:
                return False
    return True

def possible(facts):
    """False only if the facts are shown contradictory"""
    try:
        return _possible(list(facts), Budget(2000)) is not None
    except Undecided:
        return True
