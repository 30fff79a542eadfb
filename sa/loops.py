"""Summaries of loops whose number of iterations is not a constant.

The values a loop changes are found by comparing the state before and after one abstract iteration.
Each is classified by how one iteration at a generic step k changes it, starting from an arbitrary
value: a linear induction variable, an accumulated sum, a sequence updated at one position per step, a
sequence extended by one element per step, a map updated at one key per step.  The state after the
loop follows from the classes and the number of iterations.  None: the loop is not of this form."""
from .terms import *
from .values import *
from .interp import State, merge_states, fresh

class Poison:
    """a loop-carried value that is not summarised: any use is undecided"""
    def __init__(self, what):
        self.what = what
    def __repr__(self):
        return '<loop-carried %s>' % (self.what,)

class NoSummary(Exception):
    pass

def diff(a, b, path, out):
    """paths at which b (after) differs from a (before)"""
    a, b = force(a), force(b)
    if a is b:
        return
    if isinstance(a, Poison):
        return
    if isinstance(a, StructV) and isinstance(b, StructV) and a.tag == b.tag and a.variant == b.variant and len(a.fields) == len(b.fields):
        for n, (x, y) in enumerate(zip(a.fields, b.fields)):
            diff(x, y, path + (('f', n),), out)
        return
    if isinstance(a, IterV) and isinstance(b, IterV) and a.item is b.item and a.ends == b.ends:
        if a.pos != b.pos:
            out.append((path, 'iter'))
        return
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a != b:
            out.append((path, 'num'))
        return
    if isinstance(a, IteV) or isinstance(b, IteV):
        if a != b:
            out.append((path, 'gated' if isinstance(a, IteV) else 'any'))
        return
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if not (a == b):
            out.append((path, 'seq'))
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if not (a == b):
            out.append((path, 'map'))
        return
    if a == b:
        return
    out.append((path, 'any'))

def getp(v, path):
    for p in path:
        v = force(v)
        if not isinstance(v, StructV):
            raise NoSummary('path')
        v = v.fields[p[1]]
    return force(v)

def setp(v, path, new):
    if not path:
        return new
    v = force(v)
    if not isinstance(v, StructV):
        raise NoSummary('path')
    fs = list(v.fields)
    fs[path[0][1]] = setp(fs[path[0][1]], path[1:], new)
    return StructV(v.tag, v.variant, fs)

def resolve(v, c, val):
    """v where the condition c has the value val"""
    v = force(v)
    conds = {c: val}
    if isinstance(v, Poly):
        return subst(v, {}, conds)
    if is_cond(v):
        return subst(v, {}, conds) if not isinstance(v, bool) else v
    if isinstance(v, IteV):
        cc = subst(v.c, {}, conds)
        if cc is True:
            return resolve(v.a, c, val)
        if cc is False:
            return resolve(v.b, c, val)
        return IteV(cc, resolve(v.a, c, val), resolve(v.b, c, val))
    if isinstance(v, StructV):
        fs = [resolve(x, c, val) for x in v.fields]
        if all(x is y for x, y in zip(fs, v.fields)):
            return v
        return StructV(v.tag, v.variant, fs)
    if isinstance(v, SeqList):
        fs = [resolve(x, c, val) for x in v.items]
        if all(x is y for x, y in zip(fs, v.items)):
            return v
        return SeqList(fs)
    if isinstance(v, IterV):
        p, es = resolve(v.pos, c, val), [resolve(e, c, val) for e in v.ends]
        return IterV(p, es, v.item, v.label)
    return v

def gates(v, out):
    v = force(v)
    if isinstance(v, IteV):
        out.append(v.c)
    elif isinstance(v, StructV):
        for x in v.fields:
            gates(x, out)
    elif isinstance(v, IterV):
        for e in v.ends:
            for c in conds_deep(e):
                if c not in out:
                    out.append(c)

def first_atom_cond(c):
    while c[0] in ('not', 'and', 'or'):
        c = c[1] if c[0] == 'not' else c[1][0]
    return c

def simplify_and(c):
    """unit propagation in a conjunction"""
    for _ in range(4):
        if isinstance(c, bool) or c[0] != 'and':
            return c
        units = [x for x in c[1] if x[0] != 'or']
        out = list(units)
        for x in c[1]:
            if x[0] == 'or':
                alts = []
                taut = False
                for y in x[1]:
                    if y in units:
                        taut = True
                    ys = y[1] if y[0] == 'and' else (y,)
                    if any(neg(z) in units for z in ys):
                        continue
                    ys = [z for z in ys if z not in units]
                    z = conj(*ys)
                    if z is True:
                        taut = True
                    alts.append(z)
                if not taut:
                    out.append(disj(*alts))
        c = conj(*out)
    return c

def summarise(I, base, iterate, depth=0):
    mark = len(I.panics)
    try:
        r = _summarise(I, base, iterate, depth)
    except (NoSummary, Undecided) as e:
        I.__dict__.setdefault('loop_notes', []).append(str(e))
        r = None
    if r is None:
        del I.panics[mark:]
    return r

def apply_leaves(base, leaves, f):
    s = base.copy()
    for (loc, path), kind in leaves.items():
        s.mem[loc] = setp(s.mem[loc], path, f(loc, path, kind, getp(base.mem[loc], path)))
    return s

def one_back(I, base, outs):
    backs = [(c, s) for c, k, s in outs if k == 'back']
    if not backs:
        return None
    if len(backs) == 1:
        return backs[0][1]
    n = base.copy()
    I.join(backs, n)
    return n

def changes(before, after):
    out = []
    for loc, v in before.mem.items():
        if loc in after.mem:
            o = []
            diff(v, after.mem[loc], (), o)
            out += [((loc, p), k) for p, k in o]
    return out

def atom_id(p):
    (m, c), = p.t.items()
    return m[0][0]

def _summarise(I, base, iterate, depth):
    mark = len(I.panics)
    # ---- split on gates of what the loop changes
    mu = {}
    leaves = {}
    mus = set()
    def fresh_mu(loc, path, kind, v):
        key = (loc, path)
        if key in mu:
            return mu[key]
        if kind == 'num':
            x = var(fresh('mu'))
            mus.add(atom_id(x))
        elif kind == 'iter':
            x = v
        elif kind == 'seq':
            n = fresh('seqmu')
            x = SeqAtom(n, v.len)
        elif kind == 'map':
            x = MapAtom(fresh('mapmu'))
        else:
            x = Poison('%s%s' % (loc, path))
        mu[key] = x
        return x
    kv = var(fresh('k'), 0, None)
    kid = atom_id(kv)
    def generic(loc, path, kind, v):
        if kind == 'iter':
            return v.at(v.pos + kv)
        return fresh_mu(loc, path, kind, v)
    back = None
    for rnd in range(10):
        s = apply_leaves(base, leaves, generic)
        del I.panics[mark:]
        outs = iterate(s.copy())
        back = one_back(I, s, outs)
        if back is None:
            raise NoSummary('no iteration')
        new = False
        for (loc, path), kind in changes(s, back):
            key = (loc, path)
            if kind == 'gated' or (kind in ('seq', 'map') and False):
                v = getp(s.mem[loc], path)
                gs = []
                gates(v, gs)
                return split(I, base, iterate, depth, first_atom_cond(gs[0]))
            if key not in leaves:
                # a leaf below or above one already known
                for l2 in list(leaves):
                    if l2[0] == loc and l2[1][:len(path)] == path and l2[1] != path:
                        del leaves[l2]
                leaves[key] = kind
                if kind in ('seq', 'map'):
                    v = getp(base.mem[loc], path)
                    if isinstance(v, SeqV) and back is not None:
                        pass
                new = True
        if not new:
            break
    else:
        raise NoSummary('no stable set of changed values')
    # a gated end of an iterator: split
    for (loc, path), kind in leaves.items():
        if kind == 'iter':
            gs = []
            gates(getp(base.mem[loc], path), gs)
            if gs:
                return split(I, base, iterate, depth, first_atom_cond(gs[0]))
    # ---- numbers
    value = {}          # leaf -> function step -> value
    pend = {k: v for k, v in leaves.items() if v == 'num'}
    known = {}          # mu atom -> Poly in k
    for _ in range(4):
        for key in list(pend):
            loc, path = key
            x0 = getp(base.mem[loc], path)
            x1 = getp(back.mem[loc], path)
            if not isinstance(x1, Poly) or not isinstance(x0, Poly):
                continue
            me = mu[key]
            d = subst(x1 - me, known)
            if mus & atoms_deep(d):
                continue
            if kid not in atoms_deep(d):
                value[key] = lambda k, x0=x0, d=d: x0 + d * k
            else:
                bv = var(fresh('j'), 0, None)
                t = subst(d, {kid: bv})
                value[key] = lambda k, x0=x0, t=t, bv=bv: x0 + mk_sum(atom_id(bv), k, t)
            known[atom_id(me)] = value[key](kv)
            mus.discard(atom_id(me))
            del pend[key]
    if I.debug_loops:
        print('pending', pend, 'leaves', leaves)
    # ---- a generic iteration at step k
    def at_step(k):
        def f(loc, path, kind, v):
            key = (loc, path)
            if kind == 'iter':
                return v.at(v.pos + k)
            if key in value:
                return value[key](k)
            if kind in ('num', 'any'):
                return Poison('%s%s' % key)
            return mu[key]
        return f
    s = apply_leaves(base, leaves, at_step(kv))
    del I.panics[mark:]
    outs = iterate(s.copy())
    ec = disj(*[c for c, k, _ in outs if k != 'back'])
    cont = simplify_and(neg(ec))
    if isinstance(cont, bool):
        raise NoSummary('trip count')
    cs = cont[1] if cont[0] == 'and' else (cont,)
    ends = []
    for c in cs:
        if c[0] != 'le':
            raise NoSummary('exit condition %s' % show_cond(c))
        p = c[1]
        co = p.t.get(((kid, 1),))
        rest = Poly({m: x for m, x in p.t.items() if m != ((kid, 1),)})
        if co is None or co <= 0 or kid in atoms_deep(rest) or mus & atoms_deep(rest):
            raise NoSummary('exit condition %s' % show_cond(c))
        if co != 1:
            raise NoSummary('stride of the exit condition')
        e = ONE - rest                 # k < e
        if e not in ends:
            ends.append(e)
    # the iteration itself, where it happens
    s = apply_leaves(base, leaves, at_step(kv))
    if not s.assume(cont):
        raise NoSummary('no iteration')
    del I.panics[mark:]
    pre = s
    outs = iterate(s.copy())
    if any(k != 'back' for c, k, _ in outs):
        raise NoSummary('exit inside an iteration')
    back = one_back(I, s, outs)
    if back is None:
        raise NoSummary('no iteration')
    for (loc, path), kind in changes(s, back):
        if (loc, path) not in leaves:
            raise NoSummary('unstable')
    # ---- sequences and maps
    final = {}
    for key, kind in leaves.items():
        loc, path = key
        v0 = getp(base.mem[loc], path)
        v1 = getp(back.mem[loc], path)
        if kind == 'seq':
            final[key] = classify_seq(v0, mu[key], v1, kv, kid, mus)
        elif kind == 'map':
            final[key] = classify_map(v0, mu[key], v1, kv, kid, mus)
    # numbers must change as found
    for key in value:
        loc, path = key
        if getp(back.mem[loc], path) != value[key](kv + 1) and kid not in atoms_deep(value[key](kv + 1) - value[key](kv)):
            raise NoSummary('induction')
    # ---- the exits
    res = []
    cases = []
    for n, e in enumerate(ends):
        c = conj(*[(leq(e, e2) if n < j else lt(e, e2)) for j, e2 in enumerate(ends) if j != n])
        cases.append((c, e))
    pm = I.panics[mark:]
    for c, n in cases:
        subs = [(conj(c, leq(0, n)), n), (conj(c, lt(n, 0)), ZERO)]
        for cc, trip in subs:
            cc = base.decide(cc)
            if cc is False:
                continue
            s = apply_leaves(base, leaves, lambda loc, path, kind, v: final[(loc, path)](trip) if (loc, path) in final else at_step(trip)(loc, path, kind, v))
            if not s.assume(cc):
                continue
            outs = iterate(s.copy())
            if any(k == 'back' for _, k, _ in outs):
                raise NoSummary('exit undecided')
            for c2, k2, s2 in outs:
                res.append((conj(cc, c2), k2, s2))
    # values that are not summarised must not survive as if they were
    return res

def split(I, base, iterate, depth, c):
    if depth > 4:
        raise NoSummary('too many gates')
    res = []
    for v in (True, False):
        s = base.copy()
        if not s.assume(c, v):
            continue
        s.mem = {k: resolve(x, c, v) for k, x in s.mem.items()}
        r = _again(I, s, iterate, depth + 1)
        for cc, k, st in r:
            res.append((conj(c if v else neg(c), cc), k, st))
    return res

def _again(I, s, iterate, depth):
    mark = len(I.panics)
    outs = iterate(s.copy())
    if not any(k == 'back' for _, k, _ in outs):
        return outs
    del I.panics[mark:]
    return _summarise(I, s, iterate, depth)

def classify_seq(v0, me, v1, kv, kid, mus):
    def foreign(x):
        """mentions the changing sequence, or another changing value, in a way not summarised"""
        ids = atoms_deep(x)
        if mus & ids:
            return True
        for i in ids:
            a = atom_of(i)
            if a[0] == 'app' and a[1] == 'el' and a[2] == me.name:
                return True
            if a[0] == 'app' and a[1] in ('el', 'mval') and isinstance(a[2], str) and 'mu~' in a[2] and a[2] != me.name:
                return True
        return False
    if isinstance(v1, SeqCat) and v1.a == me and isinstance(v1.b, SeqList):
        items = v1.b.items
        w = len(items)
        if w == 0:
            return lambda n: v0
        for x in items:
            if not pure_value(x) or any(foreign(p) for p in polys(x)):
                raise NoSummary('extension of a sequence')
        if w != 1:
            raise NoSummary('extension by several elements')
        x = items[0]
        def ext_(n):
            l0 = v0.len
            return SeqFn(l0 + n, lambda i: merge(lt(i, l0), LazyGet(v0, i), Later(lambda: vsubst(x, {kid: i - l0}))))
        return ext_
    if isinstance(v1, SeqStore) and v1.base == me:
        idx, val = v1.idx, v1.val
        if not isinstance(val, Poly):
            raise NoSummary('stored value')
        old = me.get(idx)
        oid = atom_id(old)
        hole = var(fresh('old'))
        v2 = subst(val, {oid: hole})
        if foreign(v2) or foreign(idx):
            raise NoSummary('stored value depends on other elements')
        d = idx - kv
        if kid not in atoms_deep(d):
            def point(n):
                return SeqPoint(v0, d, n, lambda k, o: subst(v2, {kid: k, atom_id(hole): o}))
            return point
        inc = v2 - hole
        if atom_id(hole) not in atoms_deep(inc):
            bv = var(fresh('j'), 0, None)
            e = {kid: bv}
            def addi(n):
                return SeqAdd(v0, [(((atom_id(bv), n),), True, subst(idx, e), subst(inc, e))])
            return addi
        raise NoSummary('positions of the stores')
    raise NoSummary('sequence update %r' % (v1,))

class Later(LazyGet):
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f
    def force(self):
        return self.f()

def pure_value(x):
    if isinstance(x, Poly) or is_cond(x):
        return True
    if isinstance(x, StructV):
        return all(pure_value(y) for y in x.fields)
    return False

def polys(x):
    if isinstance(x, Poly) or is_cond(x):
        yield x
    elif isinstance(x, StructV):
        for y in x.fields:
            yield from polys(y)

def vsubst(x, env):
    if isinstance(x, StructV):
        return StructV(x.tag, x.variant, [vsubst(y, env) for y in x.fields])
    return subst(x, env)

def classify_map(v0, me, v1, kv, kid, mus):
    if not (isinstance(v1, MapUpd) and v1.base == me):
        raise NoSummary('map update %r' % (v1,))
    k = v1.k
    a = single_atom(k)
    if not (a and a[0] == 'app' and a[1] == 'keyat' and a[3] == kv):
        raise NoSummary('map key')
    src = a[2]
    p, v = v1.p, v1.v
    if not (isinstance(v, Poly) or v is UNDEF):
        raise NoSummary('map value')
    kkid = atom_id(k)
    holev, holep = var(fresh('old')), ('b', 'oldpres', fresh('p'))
    env = {atom_id(me.val(k)): holev}
    conds = {me.pres(k): holep} if not isinstance(me.pres(k), bool) else {}
    p2 = subst(p, env, conds) if not isinstance(p, bool) else p
    v2 = subst(v, env, conds) if v is not UNDEF else UNDEF
    def bad(x):
        ids = atoms_deep(x)
        if mus & ids:
            return True
        for i in ids:
            b = atom_of(i)
            if b[0] == 'app' and b[1] in ('mval', 'el') and isinstance(b[2], str) and 'mu~' in b[2]:
                return True
        for c in conds_deep(x):
            if c[0] == 'b' and c[1] == 'mpres' and 'mu~' in str(c[2]):
                return True
        if kid in (ids - {kkid}) and False:
            return True
        return False
    if bad(p2) or (v2 is not UNDEF and bad(v2)):
        raise NoSummary('map update depends on other entries')
    q0 = var(fresh('q'))
    def general(x):
        """the update as a function of the key, which may depend on the step only through the key"""
        y = subst(x, {kkid: q0})
        if kid in atoms_deep(y):
            raise NoSummary('map update depends on the step')
        return y
    p3 = general(p2) if not isinstance(p2, bool) else p2
    v3 = general(v2) if v2 is not UNDEF else UNDEF
    srcmap = MapAtom(src)
    def fin(n):
        if n != srcmap.count():
            raise NoSummary('iteration over a part of a map')
        def at(x, q):
            if isinstance(x, bool) or x is UNDEF:
                return x
            e = {atom_id(q0): q}
            y = subst(x, e)
            return subst(y, {atom_id(holev): ov(q)}, {holep: v0.pres(q)}) if mentions(y) else y
        def ov(q):
            o = v0.val(q)
            return o if isinstance(o, Poly) else ZERO
        def mentions(y):
            return atom_id(holev) in atoms_deep(y) or holep in conds_deep(y)
        def pres(q):
            return cite(srcmap.pres(q), at(p3, q), v0.pres(q))
        def val(q):
            return merge(srcmap.pres(q), at(v3, q), v0.val(q))
        return MapFn(pres, val)
    return fin
