"""Numeric witnesses: an assignment of the atoms that satisfies a set of conditions and separates two
terms.  A difference of normal forms is reported only with such a witness."""
import math, random
from fractions import Fraction
from .terms import *
from .terms import _atoms, _range
from .values import *

class Retry(Exception):
    pass

INTERP = ('mod2', 'div2', 'idiv', 'irem', 'pow', 'shl', 'shr', 'and', 'or', 'xor', 'andc')

# functions of numbers whose value no witness may choose
OPAQUE = ('sqrt', 'to_bits', 'exp', 'ln', 'copysign')
ROUND = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)}

def interp_app(name, a):
    """value of an integer function at integer arguments (only where it does not depend on the type)"""
    a = [Fraction(x) for x in a]
    if any(x.denominator != 1 for x in a):
        raise Retry()
    a = [int(x) for x in a]
    x, y = a[0], a[1]
    if name == 'mod2':
        return Fraction(x % 2 ** y)
    if name == 'div2':
        return Fraction(x >> y)
    if name == 'andc' and x < 0:
        return Fraction(x & y)
    if x < 0 or y < 0:
        raise Retry()
    if name in ('idiv', 'irem'):
        if y == 0:
            raise Retry()
        return Fraction(x // y if name == 'idiv' else x % y)
    if name in ('pow', 'shl'):
        if y > 64:
            raise Retry()
        v = x ** y if name == 'pow' else x << y
        if v >= 2 ** 31:
            raise Retry()
        return Fraction(v)
    if name == 'shr':
        if y > 31:
            raise Retry()
        return Fraction(x >> y)
    return Fraction({'and': x & y, 'andc': x & y, 'or': x | y, 'xor': x ^ y}[name])

class Env:
    def __init__(self, rng, forced):
        self.rng = rng
        self.vals = {}
        self.forced = forced      # atom id -> Poly
        self.preds = {}
        self.apps = {}
        self.busy = set()
        self.wide = False
        self.consts = ()

    def near(self):
        c = self.rng.choice(self.consts)
        return self.rng.choice((c, c + 1, c - 1, 2 * c, c / 2, -c, -2 * c, -c / 2, c + Fraction(1, 1024), 3 * c))

    def pick(self, i):
        r = _range.get(i)
        if self.consts and self.rng.random() < .35:
            v = Fraction(self.near())
            if r is None or r == (None, None):
                return v
            if v.denominator == 1 and (r[0] is None or v >= r[0]) and (r[1] is None or v <= r[1]):
                return v
        if r is not None:
            lo, hi = r
            if self.wide and lo is not None and (hi is None or hi - lo > 4096) and self.rng.random() < .4:
                # around powers of two, where truncations and shifts show
                v = 2 ** self.rng.randint(3, 63) + self.rng.choice((-1, 0, 0, 1, 2))
                if lo <= v and (hi is None or v <= hi):
                    return Fraction(v)
            if lo is None and hi is None:
                pass
            elif lo is None:
                return Fraction(hi - self.rng.choice((0, 0, 1, 2, 5)))
            elif hi is None:
                return Fraction(lo + self.rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 7, 9)))
            else:
                return Fraction(self.rng.randint(int(lo), int(hi)) if self.rng.random() < .6 else self.rng.choice((int(lo), int(hi), min(int(hi), int(lo) + 1))))
        return Fraction(self.rng.choice((0, 1, -1, 2, 3, -2, 5, 7, -3, 4, 11, 13, 17)))

    def atom(self, i):
        if i in self.vals:
            return self.vals[i]
        if i in self.busy:
            raise Retry()
        self.busy.add(i)
        a = _atoms[i]
        if i in self.forced:
            v = self.poly(self.forced[i])
            if a[0] == 'app':
                k = (a[1],) + tuple(self.arg(x) for x in a[2:])
                if self.apps.setdefault(k, v) != v:
                    raise Retry()
                if a[1] in INTERP and interp_app(a[1], k[1:]) != v:
                    raise Retry()
            r = _range.get(i)
            if r is not None and ((r[0] is not None and v < r[0]) or (r[1] is not None and v > r[1])):
                raise Retry()
        elif a[0] == 'v':
            v = self.pick(i)
        elif a[0] == 'ite':
            v = self.poly(a[2] if self.cond(a[1]) else a[3])
        elif a[0] == 'inv':
            d = self.poly(a[1])
            if d == 0:
                raise Retry()
            v = 1 / d
        elif a[0] == 'sum':
            n = self.poly(a[2])
            if n > 60:
                raise Retry()
            v = Fraction(0)
            for j in range(int(n)):
                v += self.poly(subst(a[3], {a[1]: lift(j)}))
        elif a[0] == 'app':
            k = (a[1],) + tuple(self.arg(x) for x in a[2:])
            if a[1] in OPAQUE:
                raise Retry()
            if a[1] in ROUND and k not in self.apps:
                self.apps[k] = Fraction(ROUND[a[1]](k[1]))
            if a[1] in INTERP and k not in self.apps:
                self.apps[k] = interp_app(a[1], k[1:])
            if k not in self.apps:
                # a coefficient function keeps zero
                self.apps[k] = Fraction(0) if a[1] == 'fn' and k[1] == 0 else self.pick(i)
            v = self.apps[k]
        else:
            raise Undecided('no value for %r' % (a,))
        self.busy.discard(i)
        self.vals[i] = v
        return v

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if is_cond(x) and not isinstance(x, bool):
            return self.cond(x)
        if isinstance(x, StructV):
            return (x.tag, x.variant) + tuple(self.arg(y) for y in x.fields)
        return x

    def poly(self, p):
        r = Fraction(0)
        for m, c in p.t.items():
            v = c
            for k, e in m:
                x = self.atom(k)
                if e < 0:
                    if x == 0:
                        raise Retry()
                    v = v / x ** (-e)
                else:
                    v = v * x ** e
            r += v
        return r

    def cond(self, c):
        if isinstance(c, bool):
            return c
        k = c[0]
        if k == 'le':
            return self.poly(c[1]) <= 0
        if k == 'eq':
            return self.poly(c[1]) == 0
        if k == 'not':
            return not self.cond(c[1])
        if k == 'and':
            return all(self.cond(x) for x in c[1])
        if k == 'or':
            return any(self.cond(x) for x in c[1])
        if c[1] == 'flt':
            return self.poly(c[2]) < 0
        key = c[:2] + tuple(self.arg(x) for x in c[2:])
        if key not in self.preds:
            self.preds[key] = self.rng.random() < .5
        return self.preds[key]

def _flat(facts):
    out = []
    for c, v in facts:
        if isinstance(c, tuple) and c[0] == 'not':
            out += _flat([(c[1], not v)])
        elif isinstance(c, tuple) and c[0] == 'and' and v:
            out += _flat([(x, True) for x in c[1]])
        elif isinstance(c, tuple) and c[0] == 'or' and not v:
            out += _flat([(x, False) for x in c[1]])
        else:
            out.append((c, v))
    return out

def constants(xs):
    """the numbers compared with in conditions, anywhere in the terms"""
    out, seen = set(), set()
    def poly(p, top=False):
        if top:
            c = p.t.get((), 0)
            if c and len(p.t) > 1:
                k = [abs(v) for m, v in p.t.items() if m]
                out.add(abs(Fraction(c)))
                out.update(abs(Fraction(c)) / x for x in k if x != 1)
        for m in p.t:
            for k, _ in m:
                if k not in seen:
                    seen.add(k)
                    for y in _atoms[k][1:]:
                        walk(y)
    def walk(x):
        if isinstance(x, Poly):
            poly(x)
        elif isinstance(x, tuple):
            if x and x[0] in ('le', 'eq') or x[:2] == ('b', 'flt'):
                poly(x[-1], True)
            else:
                for y in x:
                    if isinstance(y, (tuple, Poly)):
                        walk(y)
        elif isinstance(x, StructV):
            for y in x.fields:
                walk(y)
    for x in xs:
        walk(x)
    small = {Fraction(n) for n in range(1, 20)}
    return sorted(c for c in out if c not in small)[:40]

def find(facts, goal=None, tries=1500, seed=7, terms=()):
    """environment where every (cond, bool) fact holds and goal(env) is true, or None"""
    facts = _flat(facts)
    forced = {}
    for c, v in facts:
        if v and isinstance(c, tuple) and c[0] == 'eq':
            p = subst(c[1], forced) if forced else c[1]
            s = solve_linear(p)
            if s and s[0] not in forced:
                forced = {k: subst(x, {s[0]: s[1]}) for k, x in forced.items()}
                forced[s[0]] = s[1]
    rng = random.Random(seed)
    cs = None
    for n in range(tries + 2 * (tries // 3)):
        tick()
        e = Env(rng, forced)
        e.wide = tries <= n < tries + tries // 3
        if n >= tries + tries // 3:
            # around the numbers the terms compare with
            if cs is None:
                cs = constants([c for c, _ in facts] + list(terms))
            if not cs:
                break
            e.consts = cs
        try:
            for c, v in facts:
                if isinstance(c, tuple) and c[0] == 'b' and c[1] != 'flt':
                    key = c[:2] + tuple(e.arg(x) for x in c[2:])
                    if e.preds.setdefault(key, v) != v:
                        raise Retry()
            if all(e.cond(c) == v for c, v in facts) and (goal is None or goal(e)):
                return e
        except (Retry, ZeroDivisionError):
            continue
    return None

def show_env(e, limit=14):
    out = []
    for i, v in e.vals.items():
        a = _atoms[i]
        if a[0] in ('v', 'app') and len(out) < limit:
            out.append('%s=%s' % (show_atom(a), v))
    for k, v in e.preds.items():
        if len(out) < limit:
            out.append('%s(%s)=%s' % (k[1], ','.join(map(str, k[2:])), v))
    return ', '.join(out)
