"""Machine integer operations on polynomials with interval ranges (positional-digit reasoning)."""
from fractions import Fraction
from .terms import *
from . import terms as T

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}

def irange(ty):
    b = BITS[ty]
    return (0, 2 ** b - 1) if ty[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)

def wrap(p, ty):
    lo, hi = irange(ty)
    c = p.as_int()
    if c is not None:
        m = 2 ** BITS[ty]
        c %= m
        if c > hi:
            c -= m
        return lift(c)
    l, h = prange(p)
    if l is not None and h is not None and l >= lo and h <= hi:
        return p
    return None

def mod_pow2(p, k):
    """p mod 2^k, for p >= 0"""
    c = p.as_int()
    if c is not None:
        return lift(c % 2 ** k)
    m = 2 ** k
    r = Poly({mo: co for mo, co in p.t.items() if mo != () and (co.denominator != 1 or co % m)})
    if any(co.denominator != 1 for co in r.t.values()):
        raise Undecided('mod of a fraction')
    const = p.t.get((), 0)
    if const != int(const):
        raise Undecided('mod of a fraction')
    for c0 in (int(const) % m, int(const) % m - m):
        lo, hi = prange(r + lift(c0))
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return r + lift(c0)
    r = r + lift(int(const) % m)
    r = Poly({mo: co % m for mo, co in r.t.items() if co % m})
    lo, hi = prange(r)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return r
    return app('mod2', p, k, rng=(0, m - 1))

def div_pow2(p, k):
    """floor(p / 2^k)"""
    c = p.as_int()
    if c is not None:
        return lift(c >> k)
    m = 2 ** k
    q = ZERO
    r = ZERO
    for mo, co in p.t.items():
        if co.denominator != 1:
            raise Undecided('shift of a fraction')
        if mo == ():
            q = q + lift(int(co) // m)
            r = r + lift(int(co) % m)
        elif co % m == 0:
            q = q + Poly({mo: co / m})
        else:
            r = r + Poly({mo: co})
    if not r.t:
        return q
    for up in (0, 1):
        lo, hi = prange(r - lift(up * m))
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return q + lift(up)
    q2 = q + Poly({mo: Fraction(co // m) for mo, co in r.t.items() if co // m})
    r2 = Poly({mo: co % m for mo, co in r.t.items() if co % m})
    lo, hi = prange(r2)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return q2
    l, h = prange(p)
    return app('div2', p, k, rng=(None if l is None else int(l) >> k, None if h is None else int(h) >> k))

def runs(mask, bits):
    """maximal runs of ones [lo, hi)"""
    out = []
    i = 0
    while i < bits:
        if mask >> i & 1:
            j = i
            while j < bits and mask >> j & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out

def bit_and(a, b, ty):
    ca, cb = a.as_int(), b.as_int()
    if ca is not None and cb is not None:
        return lift(ca & cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is None:
        return app('and', *sorted((a, b), key=str))
    lo, hi = prange(a)
    if lo is None or lo < 0:
        return app('andc', a, cb)
    r = ZERO
    for s, e in runs(cb & (2 ** BITS[ty] - 1), BITS[ty]):
        x = mod_pow2(a, e) if (hi is None or hi >= 2 ** e) else a
        x = div_pow2(x, s)
        r = r + x * lift(2 ** s)
    return r

def bit_or(a, b, ty, xor=False):
    ca, cb = a.as_int(), b.as_int()
    if ca is not None and cb is not None:
        return lift(ca ^ cb if xor else ca | cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    # disjoint supports: one is a multiple of 2^k, the other below 2^k
    for x, y in ((a, b), (b, a)):
        l, h = prange(y)
        lx, hx = prange(x)
        if l is not None and h is not None and l >= 0 and lx is not None and lx >= 0:
            k = int(h).bit_length()
            if all(co.denominator == 1 and co % 2 ** k == 0 for co in x.t.values()):
                return a + b
    # position by position: x's digits all lie where y has none
    if disjoint_digits(a, b):
        return a + b
    return app('xor' if xor else 'or', *sorted((a, b), key=str))

def supports(p):
    out = []
    for mo, co in p.t.items():
        if co.denominator != 1 or co < 0:
            return None
        if mo == ():
            for s, e in runs(int(co), 130):
                out.append((s, e))
            continue
        l, h = prange(Poly({mo: Fraction(1)}))
        if l is None or h is None or l < 0:
            return None
        c = int(co)
        s = (c & -c).bit_length() - 1
        if c >> s != 1:
            return None
        out.append((s, s + int(h).bit_length()))
    return out

def disjoint_digits(a, b):
    sa, sb = supports(a), supports(b)
    if sa is None or sb is None:
        return False
    al = sorted(sa + sb)
    return all(x[1] <= y[0] for x, y in zip(al, al[1:]))

def bit_not(a, ty):
    c = a.as_int()
    if c is None:
        if ty[0] == 'u':
            return lift(2 ** BITS[ty] - 1) - a
        return -a - 1
    if ty[0] == 'u':
        return lift((2 ** BITS[ty] - 1) ^ c)
    return lift(~c)

def shl(a, b, ty):
    s = b.as_int()
    if s is None:
        return app('shl', a, b)
    s %= BITS[ty]
    r = a * lift(2 ** s)
    w = wrap(r, ty)
    if w is not None:
        return w
    l, _ = prange(a)
    if ty[0] == 'u' and l is not None and l >= 0:
        return mod_pow2(r, BITS[ty])
    return app('shl', a, b)

def shr(a, b, ty):
    s = b.as_int()
    if s is None:
        return app('shr', a, b)
    s %= BITS[ty]
    c = a.as_int()
    if c is not None:
        return lift(c >> s)
    l, _ = prange(a)
    if l is None or l < 0:
        return app('shr', a, b)
    return div_pow2(a, s)

def idiv(a, b, signed=False):
    ca, cb = a.as_int(), b.as_int()
    if cb == 0:
        raise Undecided('division by zero')
    if ca is not None and cb is not None:
        q = abs(ca) // abs(cb)
        return lift(q if (ca < 0) == (cb < 0) else -q)
    if cb == 1:
        return a
    if not signed and cb is not None and cb > 0:
        q, r = split_mult(a, cb)
        if r is not None:
            lo, hi = prange(r)
            if lo is not None and hi is not None and lo >= 0 and hi < cb:
                return q
    # exact: a is a polynomial multiple of b
    l, h = prange(a)
    return app('idiv', a, b, rng=(0, h) if (not signed and l is not None and l >= 0) else None)

def irem(a, b, signed=False):
    ca, cb = a.as_int(), b.as_int()
    if cb == 0:
        raise Undecided('remainder by zero')
    if ca is not None and cb is not None:
        r = abs(ca) % abs(cb)
        return lift(r if ca >= 0 else -r)
    if cb == 1:
        return ZERO
    if not signed and cb is not None and cb > 0:
        q, r = split_mult(a, cb)
        if r is not None:
            lo, hi = prange(r)
            if lo is not None and hi is not None and lo >= 0 and hi < cb:
                return r
    return app('irem', a, b, rng=(0, cb - 1) if cb is not None and not signed else None)

def split_mult(a, m):
    """a = m*q + r with the terms whose coefficient m divides in q"""
    q, r = ZERO, ZERO
    for mo, co in a.t.items():
        if co.denominator != 1:
            return ZERO, None
        if mo == ():
            q = q + lift(int(co) // m)
            r = r + lift(int(co) % m)
        elif co % m == 0:
            q = q + Poly({mo: co / m})
        else:
            r = r + Poly({mo: co})
    lo, hi = prange(r)
    if lo is not None and hi is not None and lo >= m and hi < 2 * m:
        return q + 1, r - lift(m)
    return q, r

def ipow(a, n):
    cn = n.as_int()
    ca = a.as_int()
    if cn is not None:
        if ca is not None:
            return lift(ca ** cn)
        if cn <= 12:
            return a ** cn
    if ca == 1:
        return ONE
    return app('pow', a, n, rng=(1, None) if (prange(a)[0] or 0) >= 1 else None)

T._app_rules['pow'] = ipow
T._app_rules['idiv'] = lambda a, b: idiv(a, b)
T._app_rules['irem'] = lambda a, b: irem(a, b)
T._app_rules['shl'] = lambda a, b: app('shl', a, b) if b.as_int() is None else a * lift(2 ** b.as_int())
