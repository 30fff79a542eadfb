"""Flow-sensitive abstract interpretation of the dumped MIR over the term domain.

Control-flow joins merge states into gated values (no path is followed to the end on its own), loops
whose exit is undecided are summarised by solving their induction variables and classifying their
updates (pointwise / additive / recurrence), calls to crate functions are analysed at the call, and
calls to trait methods of a type parameter are replaced by the method's contract."""
from .terms import *
from .values import *
from .cfg import Cfg, postdom
from . import ints, floats
import struct as _struct

class Endless(Exception):
    """the analysed code recurses without end"""

class Diverged(Exception):
    pass

class State:
    __slots__ = ('mem', 'facts', 'bounds', 'pc')
    def __init__(self):
        self.mem, self.facts, self.bounds, self.pc = {}, {}, {}, ()
    def copy(self):
        s = State()
        s.mem, s.facts, s.bounds, s.pc = dict(self.mem), dict(self.facts), dict(self.bounds), self.pc
        return s
    def become(self, o):
        self.mem, self.facts, self.bounds, self.pc = o.mem, o.facts, o.bounds, o.pc

    # ---- facts
    def assume(self, c, val=True):
        """False if c contradicts what is known"""
        if not val:
            c = neg(c)
        if isinstance(c, bool):
            return c
        d = self.decide(c)
        if isinstance(d, bool):
            return d
        if c[0] == 'and':
            return all(self.assume(x) for x in c[1])
        self.pc = self.pc + (c,)
        self.facts[c] = True
        n = neg(c)
        if not isinstance(n, bool):
            self.facts[n] = False
        if c[0] == 'le':
            self._bound(c[1], None, 0)
        elif c[0] == 'eq':
            self._bound(c[1], 0, 0)
        return True

    def _bound(self, p, lo, hi):
        k = p.t.get((), 0)
        q = p - lift(k)
        if not q.t:
            return
        s = 1 if q.t[min(q.t)] > 0 else -1
        if s < 0:
            q = -q
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            k = -k
        l, h = self.bounds.get(q, (None, None))
        if lo is not None:
            l = lo - k if l is None else max(l, lo - k)
        if hi is not None:
            h = hi - k if h is None else min(h, hi - k)
        self.bounds[q] = (l, h)

    def prange(self, p):
        k = p.t.get((), 0)
        q = p - lift(k)
        if not q.t:
            return k, k
        s = 1 if q.t[min(q.t)] > 0 else -1
        lo, hi = self.bounds.get(q if s > 0 else -q, (None, None))
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        a, b = prange(q)
        lo = a if lo is None else lo if a is None else max(a, lo)
        hi = b if hi is None else hi if b is None else min(b, hi)
        return (None if lo is None else lo + k), (None if hi is None else hi + k)

    def decide(self, c):
        """True / False / the condition itself"""
        if isinstance(c, bool):
            return c
        v = self.facts.get(c)
        if v is not None:
            return v
        if c[0] == 'le':
            lo, hi = self.prange(c[1])
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif c[0] == 'eq':
            lo, hi = self.prange(c[1])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
        elif c[0] == 'not':
            d = self.decide(c[1])
            return (not d) if isinstance(d, bool) else c
        elif c[0] == 'and':
            ds = [self.decide(x) for x in c[1]]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return conj(*ds)
        elif c[0] == 'or':
            ds = [self.decide(x) for x in c[1]]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return disj(*ds)
        return c

    # ---- memory
    def read(self, ref):
        if isinstance(ref, IteV):
            d = self.decide(ref.c)
            if d is True:
                return self.read(ref.a)
            if d is False:
                return self.read(ref.b)
            return merge(ref.c, self.read(ref.a), self.read(ref.b))
        if ref is UNDEF:
            return UNDEF
        if not isinstance(ref, RefV):
            raise Undecided('dereference of %r' % (ref,))
        if ref.loc not in self.mem:
            return UNDEF
        return vread(self.mem[ref.loc], ref.path)

    def write(self, ref, v):
        if isinstance(ref, IteV):
            d = self.decide(ref.c)
            if d is True:
                return self.write(ref.a, v)
            if d is False:
                return self.write(ref.b, v)
            self.write(ref.a, merge(ref.c, v, self.read(ref.a)))
            self.write(ref.b, merge(ref.c, self.read(ref.b), v))
            return
        if ref is UNDEF:
            return
        if not isinstance(ref, RefV):
            raise Undecided('write through %r' % (ref,))
        self.mem[ref.loc] = vwrite(self.mem.get(ref.loc, UNDEF), ref.path, v)

def merge_states(c, a, b, base):
    """state that is a where c holds and b elsewhere"""
    s = State()
    mem = {}
    for k, v in a.mem.items():
        if k in b.mem:
            w = b.mem[k]
            mem[k] = v if v is w else merge(c, v, w)
        else:
            mem[k] = v
    for k, w in b.mem.items():
        if k not in mem:
            mem[k] = w
    s.mem = mem
    s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
    s.bounds = {k: v for k, v in a.bounds.items() if b.bounds.get(k) == v}
    s.pc = base.pc
    return s

class Frame:
    __slots__ = ('id', 'body', 'cfg', 'loopctx')
    def __init__(self, i, body, cfg):
        self.id, self.body, self.cfg = i, body, cfg

_fresh = [0]
def fresh(prefix):
    _fresh[0] += 1
    return '%s~%d' % (prefix, _fresh[0])

class Interp:
    def __init__(self, mir, cparam=None, param=False, fuel=60000, debug_overflow=True):
        self.mir = mir
        self.bodies = mir.bodies
        self.cparam = cparam          # value of the const generic (alphabet width)
        self.param = param            # summarise loops with undecided exits
        self.fuel = fuel
        self.panics = []              # (pc, kind, where)
        self.sites = 0                # call sites analysed
        self.visited = set()          # body ids analysed
        self.depth = 0
        self.maxdepth = 90
        self.memo, self.active, self._scalar = {}, set(), {}
        self.consts = {}
        self.absvec = 'lin'
        self.basis = None
        self.overflow = debug_overflow
        self.hooks = {}
        self.maxunroll = 700
        self.reverse_maps = False     # iterate concrete maps in the opposite order
        self.wrapper = False          # conversions of a vector build the abstract wrapper
        self.unchecked = []           # (proved, file, line) of unchecked accesses
        self.log = []                 # calls on abstract objects
        self.lin_key, self.lin_pres, self.lin_prod = lin_key, lin_pres, lin_prod
        self.deg_of = None
        self.debug_loops = False
        self.exact = False            # keep the rounding of floating-point operations apart
        from . import models
        self.models = models

    def contract_first(self, f, tr, m, args, st):
        return False

    def lazy_get(self, st, args):
        raise Undecided('lazy static')

    def dense_degree(self, st, n):
        c = n.as_int()
        w = self.cparam.as_int() if self.cparam is not None else None
        if c is None or w is None:
            if self.deg_of:
                return self.deg_of(st, n)
            raise Undecided('degree of a vector of unknown length')
        d, s = 0, 1
        while s < c:
            d += 1
            s += w ** d
        return lift(d)

    # ------------------------------------------------------------ running
    def call_body(self, body, args, st, keep=False):
        key = None
        if not keep and (args or self.scalar(body)) and all(isinstance(a, Poly) and a.as_int() is not None for a in args):
            # a function of constants only: its value is remembered, and a call of itself with the same
            # constants while it runs can never end
            key = (body['id'], tuple(a.as_int() for a in args))
            if key in self.memo:
                return self.memo[key]
            if key in self.active:
                raise Endless('%s (%s:%s) calls itself with the same arguments (%s), so it never ends' % (body['p'], body['file'], body['line'], ', '.join(map(str, key[1]))))
            self.active.add(key)
            np = len(self.panics)
            try:
                r = self.call_body1(body, args, st, keep)
            finally:
                self.active.discard(key)
            if isinstance(r, Poly) and r.as_int() is not None and len(self.panics) == np and not self.log:
                self.memo[key] = r
            return r
        return self.call_body1(body, args, st, keep)

    def scalar(self, body):
        r = self._scalar.get(body['id'])
        if r is None:
            def flat(t):
                return t.get('k') in ('int', 'bool') or t.get('k') == 'tuple' and all(flat(x) for x in t.get('a', t.get('ts', [])))
            r = self._scalar[body['id']] = all(flat(l) for l in body['locals'])
        return r

    def call_body1(self, body, args, st, keep=False):
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Undecided('call depth (recursion)')
        try:
            self.visited.add(body['id'])
            fid = _fresh[0] = _fresh[0] + 1
            fr = Frame(fid, body, self.mir.cfg(body))
            for i, a in enumerate(args):
                st.mem[(fid, i + 1)] = a
            ok = self.exec(fr, 0, 'RET', st)
            if not ok:
                raise Diverged()
            r = st.mem.get((fid, 0), UNIT)
            if not keep:
                for i in range(len(body['locals'])):
                    st.mem.pop((fid, i), None)
            return r
        finally:
            self.depth -= 1

    def exec(self, fr, bb, stop, st):
        """run from bb until stop; False if every path diverges"""
        while True:
            if bb == stop:
                return True
            if bb == 'RET':
                raise Undecided('return inside a region')
            if bb in fr.cfg.loops:
                outs = self.loop(fr, bb, st)
                if not outs:
                    return False
                if len(outs) == 1:
                    st.become(outs[0][2])
                    bb = outs[0][1]
                    continue
                targets = [o[1] for o in outs]
                j = fr.cfg.common_pdom(targets)
                res = []
                for c, t, s in outs:
                    if t not in fr.cfg.live:
                        self.exec(fr, t, '#none', s)
                        continue
                    if self.exec(fr, t, j, s):
                        res.append((c, s))
                if not res:
                    return False
                self.join(res, st)
                bb = j
                continue
            r = self.step(fr, bb, st)
            if r is None:
                return False
            if isinstance(r, list):
                j = fr.cfg.ipdom.get(bb)
                res = []
                for c, t in r:
                    s = st.copy()
                    if not s.assume(c):
                        continue
                    if t not in fr.cfg.live:
                        self.exec(fr, t, '#none', s)
                        continue
                    if self.exec(fr, t, j, s):
                        res.append((c, s))
                if not res:
                    return False
                self.join(res, st)
                bb = j
            else:
                bb = r

    def join(self, res, st):
        """merge the alternatives (cond, state) into st"""
        if len(res) == 1:
            pc = st.pc
            st.become(res[0][1])
            return
        cur = res[-1][1]
        for c, s in reversed(res[:-1]):
            cur = merge_states(c, s, cur, st)
        cur.pc = st.pc
        st.become(cur)

    def step(self, fr, bb, st):
        """one block: next block, list of (cond, block) when undecided, or None when diverged"""
        self.fuel -= 1
        if self.fuel <= 0:
            raise Undecided('fuel')
        if not self.fuel & 127:
            tick()
        blk = fr.body['blocks'][bb]
        for s in blk['s']:
            k = s['k']
            if k == '=':
                self.assign(fr, s['pl'], self.rvalue(fr, s['r'], st, s), st)
            elif k in ('live', 'dead'):
                st.mem.pop((fr.id, s['l']), None)
            elif k == 'setd':
                raise Undecided('set_discriminant')
            elif k == 'intr':
                pass
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return t['t']
        if k == 'drop':
            h = self.hooks.get('drop')
            if h:
                h(self, fr, t, st)
            return t['t']
        if k == 'return':
            return 'RET'
        if k == 'unreachable':
            return None
        if k == 'switch':
            v = self.operand(fr, t['o'], st)
            return self.switch(t, v, st)
        if k == 'assert':
            v = self.operand(fr, t['o'], st)
            if not is_cond(v):
                raise Undecided('assert on %r' % (v,))
            ok = st.decide(v if t['exp'] else neg(v))
            if ok is False:
                self.panic(st, t.get('msg', 'assert'), fr, t)
                return None
            if ok is not True:
                s2 = st.copy()
                if s2.assume(neg(ok)):
                    self.panic(s2, t.get('msg', 'assert'), fr, t)
                st.assume(ok)
            return t['t']
        if k == 'call':
            try:
                v = self.call(fr, t, st)
            except Diverged:
                return None
            if t.get('t') is None:
                return None
            self.assign(fr, t['dest'], v, st)
            return t['t']
        raise Undecided('terminator %s' % k)

    def panic(self, st, kind, fr=None, t=None):
        where = ('%s:%s' % (fr.body['file'], t.get('line'))) if fr else '?'
        self.panics.append((st.pc, kind, where, fr.body['p'] if fr else '?'))

    def switch(self, t, v, st):
        isb = t['ty']['k'] == 'bool'
        out = []
        rest = True
        if isinstance(v, Poly):
            ci = v.as_int()
            if ci is not None:
                for val, b in t['vals']:
                    if self.same_disc(ci, int(val)):
                        return b
                return t['else']
        for val, b in t['vals']:
            n = int(val)
            if is_cond(v):
                c = v if n else neg(v)
            elif isinstance(v, Poly):
                c = self.cond_is(v, n)
            else:
                raise Undecided('switch on %r' % (v,))
            c = st.decide(c)
            if c is False:
                continue
            full = st.decide(conj(rest, c))
            if full is False:
                continue
            if c is True and rest is True:
                return b
            out.append((full, b))
            rest = st.decide(conj(rest, neg(c)))
            if rest is False:
                break
        if rest is not False and t['else'] is not None:
            eb = t['else']
            out.append((rest, eb))
        # an else edge to an unreachable block is not an alternative
        blocks = self._blocks_of
        out2 = [(c, b) for c, b in out]
        if len(out2) == 1:
            return out2[0][1]
        # merge identical targets
        m = {}
        order = []
        for c, b in out2:
            if b in m:
                m[b] = disj(m[b], c)
            else:
                m[b] = c
                order.append(b)
        if len(order) == 1:
            return order[0]
        return [(m[b], b) for b in order]

    _blocks_of = None

    def same_disc(self, a, b):
        return a == b or (a < 0 and any(a + 2 ** w == b for w in (8, 16, 32, 64, 128)))

    def cond_is(self, v, n):
        """condition that the number v (possibly gated) equals n"""
        a = single_atom(v)
        if a and a[0] == 'ite':
            return cite(a[1], self.cond_is(a[2], n), self.cond_is(a[3], n))
        c = v.as_int()
        if c is not None:
            return self.same_disc(c, n)
        return eq(v, n)

    # ------------------------------------------------------------ places
    def place(self, fr, pl, st):
        """RefV denoting the place (or a gated reference)"""
        ref = RefV((fr.id, pl['l']))
        return self.project(fr, ref, pl['p'], st)

    def project(self, fr, ref, projs, st):
        for n, p in enumerate(projs):
            if isinstance(ref, IteV):
                d = st.decide(ref.c)
                if d is True:
                    ref = ref.a
                elif d is False:
                    ref = ref.b
                else:
                    return merge(ref.c, self.project(fr, ref.a, projs[n:], st), self.project(fr, ref.b, projs[n:], st))
            if ref is UNDEF:
                return UNDEF
            if p == '*':
                v = st.read(ref)
                if isinstance(v, StructV) and v.tag == 'box':
                    v = v.fields[0]
                if isinstance(v, IteV):
                    d = st.decide(v.c)
                    if d is True:
                        v = v.a
                    elif d is False:
                        v = v.b
                if isinstance(v, StructV) and v.tag == 'ptr':
                    v = self.models.ptr_at(self, st, v, ONE, fr, {}).ext(('ix', v.fields[1]))
                if v is UNDEF or isinstance(v, (RefV, IteV)):
                    ref = v
                else:
                    raise Undecided('deref of %r' % (v,))
            elif 'f' in p:
                ref = ref.ext(('f', p['f']))
            elif 'v' in p:
                ref = ref.ext(('v', p['v']))
            elif 'ix' in p:
                i = st.mem.get((fr.id, p['ix']))
                ref = ref.ext(('ix', i))
            elif 'cix' in p:
                if p.get('end'):
                    l = seq_len(st.read(ref))
                    ref = ref.ext(('ix', l - p['cix']))
                else:
                    ref = ref.ext(('ix', lift(p['cix'])))
            elif 'sub' in p:
                l = seq_len(st.read(ref))
                hi = l - p['to'] if p.get('end') else lift(p['to'])
                ref = ref.ext(('rng', lift(p['sub']), hi))
            else:
                raise Undecided('projection %r' % (p,))
        return ref

    def assign(self, fr, pl, v, st):
        if not pl['p']:
            st.mem[(fr.id, pl['l'])] = v
            return
        ref = self.place(fr, pl, st)
        st.write(ref, v)

    def operand(self, fr, o, st):
        if o['k'] in ('copy', 'move'):
            pl = o['pl']
            if not pl['p']:
                return st.mem.get((fr.id, pl['l']), UNDEF)
            return st.read(self.place(fr, pl, st))
        return self.const(fr, o['c'], st)

    # ------------------------------------------------------------ constants
    def const(self, fr, c, st):
        k = c['k']
        t = c.get('t') or {}
        if k == 'fn':
            return FnV(c['f'])
        if k == 'zst':
            if t.get('k') == 'tuple':
                return UNIT
            if t.get('k') == 'adt':
                return StructV(t['p'], 0, ())
            if t.get('k') == 'closure':
                b = self.mir.closure_by_path(t['p'])
                return StructV(('closure', b['id']), 0, ()) if b else Opaque(t['p'])
            return Opaque(('zst', c.get('s')))
        if k == 'cty':
            cc = c['c']
            if cc.get('k') == 'cparam':
                if self.cparam is None:
                    raise Undecided('const generic')
                return self.cparam
            if 'v' in cc:
                return lift(int(cc['v']))
            if 'bits' in cc:
                return self.decode(cc, t)
            raise Undecided('const %r' % (cc,))
        if k == 'promoted':
            b = self.bodies[c['id']]
            loc = ('promoted', c['id'], fr.id)
            if loc not in st.mem:
                st.mem[loc] = UNDEF
                v = self.call_body(b, [], st, keep=True)
                # the promoted body returns the referent's value by reference or by value
                if isinstance(v, RefV):
                    return v
                st.mem[loc] = v
            return RefV(loc)
        if k in ('val', 'uneval') and 'bits' in c:
            return self.decode(c, t)
        if k == 'uneval':
            m = c.get('m')
            if c.get('trait', '').endswith('CoefficientField') and m in ('ZERO', 'ONE', 'MONE'):
                if 'id' in c and c.get('id') in self.bodies:
                    return self.call_body(self.bodies[c['id']], [], st)
                return {'ZERO': ZERO, 'ONE': ONE, 'MONE': MONE}[m]
            if m in self.consts:
                return self.consts[m]
            if 'id' in c and c['id'] in self.bodies:
                return self.call_body(self.bodies[c['id']], [], st)
            raise Undecided('constant %s' % c.get('p'))
        if k == 'valother':
            if t.get('k') == 'ref':
                loc = ('staticref', c.get('s'))
                if loc not in st.mem:
                    st.mem[loc] = StructV(t['t']['p'], 0, ()) if t['t'].get('p') in self.mir.adts else Opaque(('static', c.get('s')))
                return RefV(loc)
            return Opaque(('const', c.get('s')))
        raise Undecided('const kind %s' % k)

    def decode(self, c, t):
        bits = int(c['bits'])
        k = t.get('k')
        if k == 'bool':
            return bool(bits)
        if k == 'int':
            return ints.wrap(lift(bits), t['n'])
        if k == 'float':
            if t['n'] == 'f32':
                f = _struct.unpack('<f', bits.to_bytes(4, 'little'))[0]
            elif t['n'] == 'f64':
                f = _struct.unpack('<d', bits.to_bytes(8, 'little'))[0]
            else:
                raise Undecided('float type')
            if f != f or f in (float('inf'), float('-inf')):
                return app('nonfinite', str(f))
            return lift(Fraction(f))
        if k == 'adt' and t['p'] == OPTION and bits == 0:
            return NONE
        if k == 'adt' and t['p'] == ORDERING:
            return StructV(ORDERING, {255: 0, 0: 1, 1: 2}[bits & 255], ())
        if k == 'char':
            return lift(bits)
        adt = self.mir.adts.get(t.get('p'))
        if adt and adt['kind'] == 'Enum' and all(not v['f'] for v in adt['variants']):
            return StructV(t['p'], bits, ())
        raise Undecided('constant of type %r' % (t,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, st, s=None):
        k = r['k']
        if k == 'use':
            return self.operand(fr, r['o'], st)
        if k in ('ref', 'rawptr'):
            return self.place(fr, r['pl'], st)
        if k == 'bin':
            a = self.operand(fr, r['a'], st)
            b = self.operand(fr, r['b'], st)
            return self.binop(fr, r['op'], a, b, r['t'], st, s)
        if k == 'un':
            a = self.operand(fr, r['a'], st)
            op = r['op']
            if op == 'PtrMetadata':
                return seq_len(st.read(a))
            if op == 'Not':
                if is_cond(a):
                    return neg(a)
                return ints.bit_not(self.num(a), r['t']['n'])
            if op == 'Neg':
                if r['t']['k'] == 'float':
                    return floats.op('neg', r['t'].get('n'), self.num(a)) if self.exact else -self.num(a)
                return self.arith(fr, -self.num(a), r['t']['n'], st, s)
            raise Undecided('unop %s' % op)
        if k == 'cast':
            return self.cast(fr, r, st)
        if k == 'discr':
            return self.discr(st.read(self.place(fr, r['pl'], st)), st)
        if k == 'agg':
            ops = [self.operand(fr, o, st) for o in r['ops']]
            ak = r['ak']
            if ak == 'tuple':
                return StructV('tuple', 0, ops)
            if ak == 'array':
                return SeqList(ops)
            if ak == 'adt':
                return StructV(r['p'], r['v'], ops)
            if ak == 'closure':
                return StructV(('closure', r['id']), 0, ops)
            raise Undecided('aggregate %s' % ak)
        if k == 'repeat':
            v = self.operand(fr, r['o'], st)
            n = r.get('n')
            n = int(n['v']) if isinstance(n, dict) and 'v' in n else int(n) if str(n).isdigit() else None
            if n is None:
                raise Undecided('repeat')
            return SeqList([v] * n)
        if k == 'len':
            return seq_len(st.read(self.place(fr, r['pl'], st)))
        raise Undecided('rvalue %s' % (r.get('s') or k))

    def num(self, a):
        if isinstance(a, Poly):
            return a
        if is_cond(a):
            return ite(a, ONE, ZERO)
        raise Undecided('number expected, got %r' % (a,))

    def discr(self, v, st):
        if isinstance(v, IteV):
            d = st.decide(v.c)
            if d is True:
                return self.discr(v.a, st)
            if d is False:
                return self.discr(v.b, st)
            return ite(v.c, self.discr(v.a, st), self.discr(v.b, st))
        if isinstance(v, StructV):
            if v.tag == ORDERING:
                return lift(v.variant - 1)
            if isinstance(v.variant, int):
                return lift(v.variant)
        raise Undecided('discriminant of %r' % (v,))

    def arith(self, fr, p, ty, st, s):
        """result of a (debug-checked) integer operation"""
        w = ints.wrap(p, ty)
        if w is not None and p.as_int() is not None and w != p:
            if self.overflow and fr.body.get('local'):
                self.panic(st, 'arithmetic overflow', fr, s or {})
                raise Diverged()
            return w
        if w is None:
            l, h = st.prange(p)
            lo, hi = ints.irange(ty)
            if (h is not None and h < lo) or (l is not None and l > hi):
                if self.overflow and fr.body.get('local'):
                    self.panic(st, 'arithmetic overflow', fr, s or {})
                    raise Diverged()
        return p

    def binop(self, fr, op, a, b, t, st, s):
        if op in ('Eq', 'Ne'):
            c = self.equal(a, b, st)
            return c if op == 'Eq' else neg(c)
        if is_cond(a) or is_cond(b):
            if op == 'BitAnd':
                return conj(a, b)
            if op == 'BitOr':
                return disj(a, b)
            if op == 'BitXor':
                return cite(a, neg(b), b)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                a, b = self.num(a), self.num(b)
        a, b = self.num(a), self.num(b)
        isf = t['k'] == 'float' or t['k'] != 'int'
        if op == 'Lt':
            return self.lt(a, b, isf)
        if op == 'Gt':
            return self.lt(b, a, isf)
        if op == 'Le':
            return neg(self.lt(b, a, isf))
        if op == 'Ge':
            return neg(self.lt(a, b, isf))
        if op == 'Cmp':
            return self.cmp3(a, b)
        if t['k'] == 'float' and self.exact:
            o = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/'}.get(op)
            if o is None:
                raise Undecided('float %s' % op)
            return floats.op(o, t.get('n'), a, b)
        if t['k'] == 'float':
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mul':
                return a * b
            if op == 'Div':
                return a * inv(b)
            raise Undecided('float %s' % op)
        ty = t.get('n', 'usize')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        if base in ('Add', 'Sub', 'Mul'):
            p = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            if op.endswith('WithOverflow'):
                w = ints.wrap(p, ty)
                if w is None:
                    return tup(p, False)
                return tup(w, w != p)
            return self.arith(fr, p, ty, st, s)
        if base == 'Div':
            return ints.idiv(a, b, ty[0] == 'i')
        if base == 'Rem':
            return ints.irem(a, b, ty[0] == 'i')
        if base in ('Shl', 'Shr'):
            n = b.as_int()
            if n is not None and not 0 <= n < ints.BITS[ty]:
                if self.overflow and fr.body.get('local'):
                    self.panic(st, 'shift overflow', fr, s or {})
                    raise Diverged()
            return ints.shl(a, b, ty) if base == 'Shl' else ints.shr(a, b, ty)
        if base == 'BitAnd':
            return ints.bit_and(a, b, ty)
        if base == 'BitOr':
            return ints.bit_or(a, b, ty)
        if base == 'BitXor':
            return ints.bit_or(a, b, ty, True)
        raise Undecided('binop %s' % op)

    def lt(self, a, b, isf):
        if isf and (a.const() is None or b.const() is None):
            p = a - b
            return ('b', 'flt', p)
        if isf:
            return a.const() < b.const()
        return lt(a, b)

    def cmp3(self, a, b):
        return merge(lt(a, b), StructV(ORDERING, 0, ()), merge(eq(a, b), StructV(ORDERING, 1, ()), StructV(ORDERING, 2, ())))

    def equal(self, a, b, st):
        """condition that two values are equal"""
        if isinstance(a, RefV) and isinstance(b, RefV):
            return self.equal(st.read(a), st.read(b), st)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return eq(a, b)
        if is_cond(a) and is_cond(b):
            return cite(a, b, neg(b))
        if isinstance(a, IteV):
            return cite(a.c, self.equal(a.a, b, st), self.equal(a.b, b, st))
        if isinstance(b, IteV):
            return cite(b.c, self.equal(a, b.a, st), self.equal(a, b.b, st))
        if isinstance(a, StructV) and isinstance(b, StructV) and a.tag == b.tag:
            if a.variant != b.variant:
                return False
            return conj(*[self.equal(x, y, st) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            la, lb = a.len.as_int(), b.len.as_int()
            if la is not None and lb is not None:
                if la != lb:
                    return False
                return conj(*[self.equal(a.get(lift(i)), b.get(lift(i)), st) for i in range(la)])
            if isinstance(a, SeqAtom) and isinstance(b, SeqAtom):
                return ('b', 'seqeq', *sorted((a.name, b.name), key=str))
        if isinstance(a, MapV) and isinstance(b, MapV):
            if isinstance(a, MapDict) and isinstance(b, MapDict):
                cs = []
                for k, p, v in a.entries:
                    cs.append(disj(neg(p), conj(b.pres(k), self.equal(v, b.val(k), st) if b.pres(k) is not False else False)))
                for k, p, v in b.entries:
                    cs.append(disj(neg(p), a.pres(k)))
                return conj(*cs)
        if isinstance(a, LinV) and isinstance(b, LinV):
            return ('b', 'lineq', a, b) if a != b else True
        raise Undecided('equality of %r and %r' % (a, b))

    def cast(self, fr, r, st):
        v = self.operand(fr, r['o'], st)
        ck = r['ck']
        t = r['t']
        if ck in ('IntToInt',):
            v = self.num(v)
            w = ints.wrap(v, t['n'])
            if w is not None:
                return w
            src = r.get('from', {})
            l, h = st.prange(v)
            lo, hi = ints.irange(t['n'])
            if src.get('k') == 'int' and src['n'] in ints.BITS and (l is not None or h is not None or ints.BITS[src['n']] > ints.BITS[t['n']] or src['n'][0] == 'u'):
                if l is None and ints.BITS[src['n']] <= ints.BITS[t['n']]:
                    l = 0   # only the sign is unknown: taken to be right
                slo, shi = ints.irange(src['n'])
                l = slo if l is None else max(l, slo)
                h = shi if h is None else min(h, shi)
            if l is None or h is None:
                return v
            if l >= lo and h <= hi:
                return v
            b = ints.BITS[t['n']]
            if l >= 0 and t['n'][0] == 'u':
                return ints.mod_pow2(v, b)
            # two's complement
            up = lift(2 ** (b - 1)) if t['n'][0] == 'i' else ZERO
            x = v + up
            if l + (2 ** (b - 1) if t['n'][0] == 'i' else 0) < 0:
                x = x + lift(-(int(l) // 2 ** b) * 2 ** b)
            return ints.mod_pow2(x, b) - up
        if ck in ('IntToFloat', 'FloatToFloat'):
            if self.exact:
                return floats.cast(self.num(v), t.get('n'), (r.get('from') or {}).get('n'))
            return self.num(v)
        if ck == 'FloatToInt':
            c = self.num(v).as_int()
            if c is None:
                raise Undecided('float to int')
            return lift(c)
        if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype'):
            return v
        raise Undecided('cast %s' % ck)

    # ------------------------------------------------------------ calls
    def call(self, fr, t, st):
        self.sites += 1
        f = t['f']
        args = [self.operand(fr, a, st) for a in t['args']]
        if f['k'] == 'const' and f['c']['k'] == 'fn':
            return self.invoke(f['c']['f'], args, st, fr, t)
        v = self.operand(fr, f, st)
        if isinstance(v, FnV):
            return self.invoke(v.f, args, st, fr, t)
        raise Undecided('indirect call')

    def invoke(self, f, args, st, fr=None, t=None):
        h = self.hooks.get('call')
        if h:
            r = h(self, f, args, st, fr, t)
            if r is not None:
                return r
        m = self.models.lookup(self, f, args, st)
        if m is not None:
            return m(self, st, f, args, fr, t)
        i = f.get('id')
        if i is not None and i in self.bodies:
            return self.call_body(self.bodies[i], args, st)
        raise Undecided('no model for %s' % (f.get('rp') or f.get('p')))

    def callv(self, fv, args, st, fr=None, t=None):
        """call a callable value with unpacked arguments"""
        ref = None
        v = fv
        while isinstance(v, (RefV,)):
            ref = v
            v = st.read(v)
        if isinstance(v, IteV):
            d = st.decide(v.c)
            if isinstance(d, bool):
                return self.callv(v.a if d else v.b, args, st, fr, t)
            raise Undecided('gated callable')
        if isinstance(v, FnV):
            return self.invoke(v.f, args, st, fr, t)
        if isinstance(v, StructV) and isinstance(v.tag, tuple) and v.tag[0] == 'closure':
            b = self.bodies.get(v.tag[1])
            if b is None:
                raise Undecided('closure body')
            envt = b['locals'][1]
            if envt['k'] == 'ref':
                if ref is None:
                    loc = ('tmp', fresh('clo'))
                    st.mem[loc] = v
                    ref = RefV(loc)
                env = ref
            else:
                env = v
            # closure bodies take their arguments unpacked
            return self.call_body(b, [env] + list(args), st)
        if isinstance(v, StructV) and v.tag == 'absfn':
            x = [self.deep(a, st) for a in args]
            return app(v.fields[0], *x)
        raise Undecided('call of %r' % (v,))

    def deep(self, a, st):
        while isinstance(a, (RefV,)) or (isinstance(a, IteV) and isinstance(a.a, RefV)):
            a = st.read(a)
        return a

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, st):
        """outcomes [(cond, exit block, state)] of the loop entered at header"""
        body = fr.cfg.loops[header]
        key = ('lp', header)
        ipd = fr.cfg.__dict__.setdefault('_lpd', {}).get(header)
        if ipd is None:
            g = {}
            for x in body:
                ss = []
                for s in fr.cfg.succ[x]:
                    if s == header or s not in body:
                        if s == header or s in fr.cfg.live:
                            if 'END' not in ss:
                                ss.append('END')
                    else:
                        ss.append(s)
                g[x] = ss
            # drop blocks that cannot reach END
            ok = {'END'}
            ch = True
            while ch:
                ch = False
                for x in g:
                    if x not in ok and any(s in ok for s in g[x]):
                        ok.add(x)
                        ch = True
            g = {x: [s for s in ss if s in ok] for x, ss in g.items() if x in ok}
            ipd = postdom(g, 'END')
            fr.cfg._lpd[header] = ipd

        def iterate(s):
            return self.region(fr, header, header, body, ipd, s, True, True)
        exits = self.drive(st, iterate)
        # merge the exits with the same target
        out = {}
        order = []
        for c, tgt, s in exits:
            if tgt in out:
                c0, s0 = out[tgt]
                m = merge_states(c0, s0, s, st)
                out[tgt] = (disj(c0, c), m)
            else:
                out[tgt] = (c, s)
                order.append(tgt)
        return [(out[t][0], t, out[t][1]) for t in order]

    def region(self, fr, bb, header, body, ipd, st, cond, first):
        while True:
            if bb == header and not first:
                return [(cond, 'back', st)]
            if bb not in body:
                return [(cond, bb, st)]
            if bb in fr.cfg.loops and bb != header:
                outs = self.loop(fr, bb, st)
                if not outs:
                    return []
                if len(outs) == 1:
                    st = outs[0][2]
                    bb = outs[0][1]
                    first = False
                    continue
                res = []
                for c, t, s in outs:
                    res += self.region(fr, t, header, body, ipd, s, conj(cond, c), False)
                return res
            r = self.step(fr, bb, st)
            first = False
            if r is None:
                return []
            if isinstance(r, list):
                j = ipd.get(bb)
                if j is not None and j != 'END':
                    res = []
                    for c, t in r:
                        s = st.copy()
                        if not s.assume(c):
                            continue
                        if t not in fr.cfg.live:
                            self.exec(fr, t, '#none', s)
                            continue
                        if self.exec(fr, t, j, s):
                            res.append((c, s))
                    if not res:
                        return []
                    self.join(res, st)
                    bb = j
                    continue
                res = []
                for c, t in r:
                    s = st.copy()
                    if not s.assume(c):
                        continue
                    if t not in fr.cfg.live:
                        self.exec(fr, t, '#none', s)
                        continue
                    res += self.region(fr, t, header, body, ipd, s, conj(cond, c), False)
                return res
            bb = r

    def drive(self, st, iterate):
        """run iterate (state -> outcomes) until no back outcome; returns exits [(cond, target, state)]"""
        exits = []
        cur = st
        pathc = True
        for n in range(self.maxunroll):
            base = cur.copy()
            mark = len(self.panics)
            outs = iterate(cur.copy())
            backs = [(c, s) for c, k, s in outs if k == 'back']
            exs = [(c, k, s) for c, k, s in outs if k != 'back']
            if backs and self.param and (exs or n == 0):
                # n: the first exits can be excluded by what is known of the length
                if True:
                    from .loops import summarise
                    del self.panics[mark:]
                    r = summarise(self, base, iterate)
                    if r is not None:
                        for c, k, s in r:
                            exits.append((conj(pathc, c), k, s))
                        return exits
                    mark = len(self.panics)
                    outs = iterate(base.copy())
                    backs = [(c, s) for c, k, s in outs if k == 'back']
                    exs = [(c, k, s) for c, k, s in outs if k != 'back']
            for c, k, s in exs:
                exits.append((conj(pathc, c), k, s))
            if not backs:
                return exits
            bc = disj(*[c for c, _ in backs])
            nxt = base.copy()
            self.join(backs, nxt)
            if exs:
                if n > (8 if self.param else 300):
                    raise Undecided('loop with undecided exit')
            # the path condition of the loop body stays known in the next iteration
            cur = nxt
            pathc = conj(pathc, bc)
        raise Undecided('loop bound')
