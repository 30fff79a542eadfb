"""Rounded arithmetic: with Interp.exact set, operations on floating-point numbers stay as terms that name the
operation and its width, so that two ways to compute a number can be told apart by their rounding."""
import math, struct
from fractions import Fraction
from .terms import *
from .values import IteV

def op(name, width, *a):
    if name == '-':
        return op('+', width, a[0], op('neg', width, a[1]))
    if name == 'neg':
        n = single_atom(a[0])
        if n and n[:2] == ('app', 'fneg'):
            return n[2]
        if a[0].const() is not None:
            return lift(-a[0].const())
        return app('fneg', a[0])
    if name in '+*':
        if name == '*':
            for x, y in (a, a[::-1]):
                if x.const() == 1:
                    return y
                if x.const() == -1:
                    return op('neg', width, y)
        a = tuple(sorted(a, key=show))
    if name == '/' and a[1].const() == 1:
        return a[0]
    return app('f%s %s' % (name, width), *a)

def cast(v, width, frm=None):
    if width == 'f64' and frm == 'f32' or width == frm:
        return v
    return app('fto %s' % width, v)

def rnd(x, width):
    if isinstance(x, Fraction):
        try:
            x = x.numerator / x.denominator if width == 'f64' else float(x)
        except OverflowError:
            x = math.inf if x > 0 else -math.inf
    if width == 'f32':
        try:
            return struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf
    return x

class NoValue(Exception):
    pass

def frac(x):
    if isinstance(x, Fraction):
        return x
    if x != x or x in (math.inf, -math.inf):
        raise NoValue()
    return Fraction(x)

def value(p, env):
    """the number a term stands for: a float, or a Fraction where no rounded operation is on top"""
    if isinstance(p, IteV):
        return value(p.a if truth(p.c, env) else p.b, env)
    c = p.const()
    if c is not None:
        return Fraction(c)
    a = single_atom(p)
    if a is None:
        r = Fraction(0)
        from .terms import atom_of
        for m, k in p.t.items():
            v = Fraction(k)
            for i, e in m:
                x = frac(value(atom(atom_of(i)), env))
                if e < 0 and x == 0:
                    raise NoValue()
                v *= x ** e
            r += v
        return r
    if a[0] == 'v':
        if a[1] not in env:
            raise NoValue()
        return env[a[1]]
    if a[0] == 'ite':
        return value(a[2] if truth(a[1], env) else a[3], env)
    if a[0] == 'app':
        n = a[1]
        if n == 'fneg':
            return -value(a[2], env)
        if n.startswith('f') and ' ' in n:
            o, w = n[1:].split(' ')
            xs = [value(x, env) for x in a[2:]]
            if o == 'to':
                return rnd(xs[0], w)
            if o == 'fma':
                return rnd(frac(xs[0]) * frac(xs[1]) + frac(xs[2]), w)
            fx = [float(rnd(x, w)) for x in xs]
            if any(x != x for x in fx):
                return math.nan
            try:
                r = fx[0] + fx[1] if o == '+' else fx[0] * fx[1] if o == '*' else fx[0] / fx[1]
            except ZeroDivisionError:
                r = math.nan if fx[0] == 0 else math.copysign(math.inf, fx[0]) * math.copysign(1, fx[1])
            except OverflowError:
                raise NoValue()
            return rnd(r, w)
    raise NoValue()

def truth(c, env):
    if c is True or c is False:
        return c
    if c[0] == 'not':
        return not truth(c[1], env)
    if c[0] in ('and', 'or'):
        xs = c[1] if len(c) == 2 and isinstance(c[1], (tuple, list, frozenset)) and not isinstance(c[1], str) else c[1:]
        f = all if c[0] == 'and' else any
        return f(truth(x, env) for x in xs)
    if c[0] == 'eq':
        return frac(value(c[1], env)) == 0
    if c[0] == 'le':
        return frac(value(c[1], env)) <= 0
    raise NoValue()

VALUES = [0.0, 1.0, -1.0, 3.0, 0.1, -0.7, 10.0, 7.0, 49.0, 1 / 3, 1e-3, -1e5, 123456.789, 2.5e-7, 5.0, -11.0, 0.3, 1e10, 6.02e15, -2.0, 0.5, 13.0, 41.0, 97.0]

def envs(names, width):
    vs = [rnd(v, width) for v in VALUES]
    if len(names) == 1:
        for v in vs:
            yield {names[0]: v}
        return
    for x in vs:
        for y in vs:
            yield {names[0]: x, names[1]: y}

def same_number(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x == y
    x, y = float(x), float(y)
    return x == y or (x != x and y != y)

def ulp(x, width):
    x = abs(float(x))
    if width == 'f64':
        return math.ulp(x)
    return max(2.0 ** -149, 2.0 ** (math.frexp(x)[1] - 24))
