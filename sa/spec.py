"""Obligations: what is specified of a function, how its analysed result is compared, and the record of
what was decided (proved for all shapes / decided for listed shapes / undecided / violated)."""
import os, json, time, os
from .terms import *
from .values import *
from .interp import Interp, State, Diverged, Endless, fresh
from . import witness, models as Md
from .mir import tyname

class Mismatch(Exception):
    """the analysed code provably differs from what is specified"""
    def __init__(self, msg, where=None, env=None):
        super().__init__(msg)
        self.msg, self.where, self.env = msg, where, env

class Skip(Exception):
    pass

class Outcome:
    def __init__(self, I, val, st, ok, panics):
        self.I, self.val, self.st, self.ok, self.panics = I, val, st, ok, panics

def run(I, body, args, st):
    mark = len(I.panics)
    try:
        v = I.call_body(body, args, st)
        return Outcome(I, v, st, True, I.panics[mark:])
    except Diverged:
        return Outcome(I, None, st, False, I.panics[mark:])
    except Endless as e:
        feasible([(c, True) for c in st.pc], str(e))
        raise Undecided(str(e))

# ------------------------------------------------------------------ comparing
def facts_of(st, extra=()):
    return [(c, True) for c in st.pc] + [(c, True) if not (isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], bool) and isinstance(c[0], tuple)) else c for c in extra]

def same_num(got, want, what, facts=()):
    if got is UNDEF or not (isinstance(got, Poly) or is_cond(got)):
        raise Undecided('%s: %r where %r is specified' % (what, got, want))
    if is_cond(got) != is_cond(want):
        if is_cond(got):
            got = ite(got, ONE, ZERO)
        else:
            want = ite(want, ONE, ZERO)
    d = differ(got, want, facts)
    if d is None:
        return
    if isinstance(got, Poly):
        goal = lambda e: e.poly(got) != e.poly(want)
    else:
        goal = lambda e: e.cond(got) != e.cond(want)
    e = witness.find(d, goal, terms=(got, want)) or witness.find(list(facts), goal, terms=(got, want))
    if e is None:
        raise Undecided('%s: %s and %s are not shown equal and no case separates them' % (what, show(got), show(want)))
    raise Mismatch('%s is %s, specified %s (for example with %s)' % (what, clip(show(got)), clip(show(want)), witness.show_env(e)), env=e)

def clip(s, n=400):
    return s if len(s) <= n else s[:n] + '...'

def same(got, want, what, st, extra=()):
    """got equals want (both abstract values) under the state's path facts"""
    facts = facts_of(st, extra)
    _same(got, want, what, st, facts)

def _same(got, want, what, st, facts):
    got, want = force(got), force(want)
    if isinstance(got, IteV) or isinstance(want, IteV):
        x = got if isinstance(got, IteV) else want
        for v in (True, False):
            nf = facts + [(x.c, v)]
            if not consistent(nf):
                continue
            g = (got.a if v else got.b) if isinstance(got, IteV) else got
            w = want
            if isinstance(want, IteV) and want.c == x.c:
                w = want.a if v else want.b
            _same(g, w, what, st, nf)
        return
    if got is want:
        return
    if isinstance(want, RefV):
        if isinstance(got, RefV):
            if got.loc == want.loc and len(got.path) == len(want.path):
                for a, b in zip(got.path, want.path):
                    if a == b:
                        continue
                    if a[0] == b[0] and a[0] in ('ix', 'rng', 'mk', 'co'):
                        for x, y in zip(a[1:], b[1:]):
                            _same(x, y, what + ' (position)', st, facts)
                        continue
                    raise Undecided('%s: %r vs %r' % (what, got, want))
                return
            if got.loc[0] == want.loc[0] == 'shared' and got.loc[1] == want.loc[1] and not got.path and not want.path:
                # what another thread stored under a key
                _same(got.loc[2], want.loc[2], what + ' (its key)', st, facts)
                return
            # a different place: wrong whatever it holds
            feasible(facts, '%s refers to %r, specified %r' % (what, got, want))
            return
        raise Undecided('%s: %r, specified a reference' % (what, got))
    if isinstance(want, Poly) or is_cond(want):
        if isinstance(got, RefV):
            got = Md.rd(st, got)
        return same_num(got, want, what, facts)
    if isinstance(want, StructV):
        if not isinstance(got, StructV):
            raise Undecided('%s: %r, specified %r' % (what, got, want))
        if got.tag != want.tag:
            raise Undecided('%s: %r, specified %r' % (what, got, want))
        if got.variant != want.variant:
            feasible(facts, '%s is %r, specified %r' % (what, got, want))
            return
        for n, (a, b) in enumerate(zip(got.fields, want.fields)):
            if isinstance(b, Opaque) or b is UNDEF:
                continue
            _same(a, b, what + ('' if len(want.fields) == 1 else '.%d' % n), st, facts)
        return
    if isinstance(want, SeqV):
        if not isinstance(got, SeqV):
            raise Undecided('%s: %r, specified a sequence' % (what, got))
        same_num(got.len, want.len, 'the length of ' + what, facts)
        n = want.len.as_int()
        if n is not None:
            for i in range(n):
                _same(seq_get(got, lift(i)), seq_get(want, lift(i)), '%s[%d]' % (what, i), st, facts)
            return
        i = var(fresh('i'), 0, None)
        nf = facts + [(lt(i, want.len), True)]
        _same(seq_get(got, i), seq_get(want, i), '%s[%s]' % (what, show(i)), st, nf)
        return
    if isinstance(want, MapV):
        if not isinstance(got, MapV):
            raise Undecided('%s: %r, specified a map' % (what, got))
        if isinstance(want, MapDict) and isinstance(got, MapDict):
            ks = [e[0] for e in want.entries] + [e[0] for e in got.entries]
        else:
            ks = [var(fresh('k'))]
        seen = []
        for k in ks:
            if k in seen:
                continue
            seen.append(k)
            gp, wp = got.pres(k), want.pres(k)
            same_num(gp, wp, 'presence of key %s in %s' % (show(k), what), facts)
            if wp is not False:
                nf = facts + ([] if wp is True else [(wp, True)])
                if not consistent(nf):
                    continue
                _same(got.val(k), want.val(k), '%s[key %s]' % (what, show(k)), st, nf)
        return
    if isinstance(want, LinV):
        if not isinstance(got, LinV):
            raise Undecided('%s: %r, specified %r' % (what, got, want))
        got = align(got, want, what, st, facts)
        for m in set(got.t) | set(want.t):
            same_num(got.t.get(m, ZERO), want.t.get(m, ZERO), 'the coefficient of %s in %s' % (show_mono(m), what), facts)
        return
    if isinstance(want, Opaque) or isinstance(want, FnV):
        if got == want:
            return
        if isinstance(got, Opaque) and isinstance(want, Opaque):
            feasible(facts, '%s is %r, specified %r' % (what, got, want))
            return
        raise Undecided('%s: %r, specified %r' % (what, got, want))
    raise Undecided('cannot compare %r with %r' % (got, want))

def skeleton(m):
    return ('prod', skeleton(m[1]), skeleton(m[2])) if m[0] == 'prod' else m

def degrees(m):
    return [m[3]] + degrees(m[1]) + degrees(m[2]) if m[0] == 'prod' else []

def align(got, want, what, st, facts):
    """products that differ from a specified one only in how their truncation degree is written"""
    t = {}
    for m, c in got.t.items():
        if m[0] == 'prod' and m not in want.t:
            for w in want.t:
                if w in got.t or skeleton(w) != skeleton(m):
                    continue
                try:
                    for a, b in zip(degrees(m), degrees(w)):
                        _same(a, b, 'the truncation degree in ' + what, st, facts)
                    m = w
                    break
                except Mismatch:
                    pass
        t[m] = t.get(m, ZERO) + c
    return LinV(t)

def feasible(facts, msg):
    if not possible(facts):
        return
    e = witness.find(facts)
    if e is None:
        raise Undecided('%s, in a case not shown possible' % msg)
    s = witness.show_env(e)
    raise Mismatch(msg + (' (for example with %s)' % s if s else ''), env=e)

def no_panic(o, what='the operation', allowed=()):
    """every recorded panic is impossible; allowed: conditions under which a panic is right"""
    for pc, kind, where, p in o.panics:
        fs = [(c, True) for c in pc] + [(c, False) for c in allowed]
        if not possible(fs):
            continue
        e = witness.find(fs)
        if e is not None:
            raise Mismatch('%s panics (%s at %s)%s' % (what, kind, where, (' for example with ' + witness.show_env(e)) if e.vals or e.preds else ''), where, env=e)
        raise Undecided('%s may panic (%s at %s)' % (what, kind, where))
    if not o.ok:
        raise Mismatch('%s never returns normally' % what)

def holds(c, what, st, extra=()):
    same_num(c, True, what, facts_of(st, extra))

def env_value(e, name):
    """the value a witness gives the variable, or None"""
    from .terms import _ids
    i = _ids.get(('v', name))
    return e.vals.get(i) if e is not None and i is not None else None

def widened(R, shapes, more):
    """the shapes, then those more(c) gives for each constant c of the code they have led through"""
    yield from shapes
    done = set(shapes)
    for c in R.limits():
        for s in more(c):
            if s not in done:
                done.add(s)
                yield s

def lists_around(c):
    """key sequences longer than c, or with keys around c"""
    return [tuple(i % 3 for i in range(c + 2)), tuple(range(c + 1)) + (0, c, 1), tuple(range(c - 1)) + (0,), (c, 0, c + 1, c - 1, c)]

def each_shape(shapes, fn, R=None, more=None):
    """fn on every shape; an undecided shape does not hide a violation on another. more: the further shapes for
    the list of the constants that occur in the code analysed so far (R.limits)"""
    und = None
    for s in shapes if more is None else widened(R, shapes, more):
        try:
            fn(s)
        except OutOfTime as e:
            raise und or e
        except Undecided as e:
            und = und or e
    if und:
        raise und

def around(c):
    return (c - 1, c, c + 1, 2 * c + 1)

def pairs_around(c):
    return [(c, c), (c + 1, c + 1), (2 * c + 1, 2 * c + 1), (c + 1, 1), (1, c + 1), (c - 1, c - 1), (c - 1, c + 2), (c + 2, c - 1), (c + 3, 0), (0, c + 3)]

def tiers(R, name, b, rule, fn, shapes, vars=('n', 'm'), limit=12):
    """the parametric analysis decides for all shapes; if it does not, the listed shapes (and the shape
    of a parametric counterexample) are analysed one by one"""
    def ob():
        more = []
        try:
            fn(None, True)
            return 'proved'
        except Mismatch as e:
            v = [env_value(e.env, x) for x in vars]
            v = tuple(0 if x is None else int(x) for x in v)
            if all(0 <= x <= limit for x in v):
                more = [v]
            R.notes.append('%s: parametric: %s' % (name, e.msg))
        except Undecided as e:
            R.notes.append('%s: parametric: %s' % (name, e))
        R.restart()
        each_shape(more + list(shapes), lambda s: fn(s, False), R, (lambda c: pairs_around(c)) if any(y for _, y in shapes) else (lambda c: [(x, 0) for x in around(c)]))
        return 'bounded'
    return R.decide(name, b, rule, ob, shapes=len(shapes))

def must_panic(o, what):
    if o.ok:
        raise Mismatch('%s returns %r where it must panic' % (what, clip(repr(o.val), 200)))

def unchanged(st, snap, what):
    for loc, v in snap.items():
        _same(st.mem.get(loc, UNDEF), v, what, st, facts_of(st))

# ------------------------------------------------------------------ the record
class Rec:
    def __init__(self, pid, mir):
        self.pid, self.mir = pid, mir
        self.obs = []           # {name, fn, file, line, rule, verdict, detail}
        self.fns = set()
        self.sites = 0
        self.blocks = 0
        self.notes = []
        self.thorough = False
        self.limit = None       # seconds per obligation
        self.budget, self.t0 = None, time.time()

    def interp(self, **kw):
        I = Interp(self.mir, **kw)
        self._I = getattr(self, '_I', [])
        self._I.append(I)
        return I

    def limits(self, lo=4, hi=2000, every=False):
        """the integer constants of the functions analysed in this obligation (in every one so far): sizes at which the code may do
        something else than at the listed ones"""
        out, seen = set(), set()
        for fs in [self.fns] if every else [I.visited for I in self._I]:
            for f in fs:
                if f not in seen:
                    seen.add(f)
                    b = self.mir.bodies.get(f) if not isinstance(f, str) else None
                    if b is not None and b.get('local'):
                        out |= self.mir.constants(b)
        out = sorted(c for c in out if lo <= c <= hi)
        few = [a * b for a in out for b in out if a < b] if len(out) < 4 else []
        return sorted(set(out) | {c for c in few if c <= hi})[:12]

    def undecided(self, name, why):
        self.obs.append(dict(name=name, fn=None, file=None, line=None, rule='the analysis applies', verdict='undecided', detail=clip(why, 1500)))

    def decide(self, name, body, rule, fn, shapes=None):
        """run the obligation fn; it returns 'proved' or 'bounded' (None: proved), or raises"""
        self._I = []
        verdict, detail = 'proved', ''
        if self.budget and time.time() - self.t0 > self.budget:
            return self.undecided(name, 'out of time')
        where = (body['file'], body['line']) if body else (None, None)
        self.restart()
        try:
            r = fn()
            if r:
                verdict = r
        except Skip as e:
            return None
        except Mismatch as e:
            verdict, detail = 'violated', e.msg
        except Undecided as e:
            verdict, detail = 'undecided', str(e)
        except RecursionError:
            verdict, detail = 'undecided', 'recursion in the analysis'
        except Exception as e:
            import traceback
            verdict, detail = 'undecided', 'error in the analysis: ' + traceback.format_exc(limit=-4)
        finally:
            deadline[0] = None
        if os.environ.get('LIMITS') and self._I:
            print('LIMITS', name, self.limits())
        for I in self._I:
            self.fns |= I.visited
            self.sites += I.sites
        o = dict(name=name, fn=body['p'] if body else None, file=where[0], line=where[1], rule=rule, verdict=verdict)
        if shapes is not None:
            o['shapes'] = shapes
        if detail:
            o['detail'] = clip(detail, 1500)
        self.obs.append(o)
        return verdict

    def restart(self):
        deadline[0] = time.time() + (self.limit or (1800 if self.thorough else 90))

    def missing(self, name, what):
        self.obs.append(dict(name=name, fn=None, file=None, line=None, rule='the operation exists', verdict='undecided', detail='%s is not there' % what))

    def count(self, v):
        return sum(1 for o in self.obs if o['verdict'] == v)
