"""C18: the shared Hall sets.

1. Rely-guarantee reading of get_hall_set: whenever a lock of the cache is acquired, other threads may have added
   entries (never changed or removed one); the function must keep that guarantee itself, and return the entry the
   cache holds for its width when it ends.
2. Lock dataflow over the whole crate: which guards are live at each call, what each call may acquire."""
import json
from ..spec import *
from ..cfg import succs as cfg_succs
from .totality import Graph

def fname(f):
    return f.get('rp') or f.get('p') or ''

# ------------------------------------------------------------------ 1. the cache
def shared(k, i):
    return RefV(('shared', i, k))

class Cache:
    def __init__(self, R, adt, width):
        self.R, self.adt, self.width = R, adt, width
        self.n = 0
        self.acq = 0
        self.refusals = 0

    def obj(self, loc):
        return StructV(self.adt, 0, (StructV('arc', 0, (loc,)),))

    def havoc(self, st, loc):
        """other threads may have added entries"""
        self.acq += 1
        i = self.n
        self.n += 1
        old = st.mem[loc].fields[0]
        self.guarantee(st, loc)
        pres = lambda k: disj(mp(old, k), ('b', 'other thread added', i, k))
        def val(k):
            return merge(mp(old, k), mv(old, k), self.obj(shared(k, i))) if mp(old, k) is not False else self.obj(shared(k, i))
        new = MapFn(pres, val)
        st.mem[loc] = StructV('rwlock', 0, (new,))
        st.mem[('snap', loc)] = new

    def guarantee(self, st, loc):
        s = st.mem.get(('snap', loc))
        if s is None:
            return
        v = st.mem[loc].fields[0]
        if v is s:
            return
        q = var('otherwidth')
        for k, w in ((self.width, 'the width requested'), (q, 'another width')):
            ex = [] if k is self.width else [(eq(k, self.width), False)]
            sp = mp(s, k)
            if sp is False:
                continue
            fx = ex + ([] if sp is True else [(sp, True)])
            if not possible(facts_of(st, fx)):
                continue
            same(mp(v, k), True, 'whether the cache still holds the set other threads already share for %s' % w, st, fx)
            same(mv(v, k), mv(s, k), 'the set the cache holds for %s, which other threads already share,' % w, st, fx)
        same(mp(v, q), mp(s, q), 'whether the cache holds a set for a width that was not requested', st, [(eq(q, self.width), False)])

def mp(m, k):
    if isinstance(m, IteV):
        return cite(m.c, mp(m.a, k), mp(m.b, k))
    return m.pres(k)

def mv(m, k):
    if isinstance(m, IteV):
        return merge(m.c, mv(m.a, k), mv(m.b, k))
    return m.val(k)

def widths_in(a):
    return [x for x in a or () if x.get('k') in ('cparam', 'cval')]

def C18(R):
    m = R.mir
    b = m.free('get_hall_set')
    adt = next((p for p in m.adts if p.split('::')[-1] == 'HallSetObject'), None)
    if b is None or adt is None:
        R.missing('get_hall_set', 'get_hall_set / HallSetObject')
    else:
        for pre in (None, 0, 1, 2, 'd'):
            def ob(pre=pre):
                try:
                    at(pre, var('NLETTERS', 1, None))
                except Undecided:
                    # not in general: a width at which it fails decides all the same
                    for w in (1, 2, 3, 4, 5, 8, 16, 63, 64, 65, 100, 255, 256, 257, 1000, 65535, 65536):
                        at(pre, lift(w))
                    raise
            def at(pre, N):
                I, st = R.interp(cparam=N, param=True), State()
                C = Cache(R, adt, N)
                def hook(I, f, args, st, fr, t):
                    p = fname(f)
                    n = p.split('::')[-1]
                    if ('lazy_static::lazy::Lazy' in p and n == 'get') or 'LazyLock' in p and n in ('deref', 'force'):
                        loc = ('static', fr.body['p'].split('>')[0])
                        if loc not in st.mem:
                            st.mem[loc] = StructV('rwlock', 0, (EMPTY_MAP,))
                        return RefV(loc)
                    if n in ('read', 'write', 'lock', 'try_read', 'try_write', 'try_lock') and 'sync' in p:
                        r, v = Md.lastref(st, args[0])
                        if isinstance(v, Opaque) and v.d[0] == 'static' and isinstance(r, RefV):
                            loc = ('static', v.d[1])
                            if loc not in st.mem:
                                st.mem[loc] = StructV('rwlock', 0, (EMPTY_MAP,))
                            r, v, args[0] = RefV(loc), st.mem[loc], RefV(loc)
                        if isinstance(r, RefV) and r.loc[0] == 'static' and isinstance(v, StructV) and v.tag == 'rwlock' and not r.path:
                            if n.startswith('try'):
                                # refused whenever another thread holds the lock
                                C.refusals += 1
                                if ('snap', r.loc) not in st.mem:
                                    st.mem[('snap', r.loc)] = v.fields[0]
                                def got(s):
                                    C.havoc(s, r.loc)
                                    return Md.M[n[4:]](I, s, f, args, fr, t)
                                return Md.branch(I, st, ('b', 'lock refused', C.refusals),
                                                 lambda s: StructV(RESULT, 1, (Opaque(('refused',)),)), got)
                            C.havoc(st, r.loc)
                    if 'degree_range_map' in p and n == 'new' and f.get('rlocal'):
                        w = widths_in(f.get('a'))
                        return Opaque(('degrees', w[0].get('n') or w[0].get('v') if w else None))
                    return None
                I.hooks['call'] = hook
                arg = StructV(OPTION, 0, ()) if pre is None else StructV(OPTION, 1, (var('d', 0, 2**32 - 1) if pre == 'd' else lift(pre),))
                o = run(I, b, [arg], st)
                no_panic(o, 'get_hall_set')
                st = o.st
                locs = [l for l in st.mem if l[0] == 'static']
                if len(locs) != 1 or not C.acq:
                    raise Undecided('the cache of Hall sets is not recognised')
                loc = locs[0]
                C.guarantee(st, loc)
                v = st.mem[loc].fields[0]
                same(mp(v, N), True, 'whether the cache holds a set for the width requested when get_hall_set returns', st)
                got = Md.rd(st, o.val) if isinstance(o.val, RefV) else o.val
                same(got, mv(v, N), 'the set get_hall_set returns', st)
                # a set made here is one of the width requested
                for loc2, x in st.mem.items():
                    if loc2[0] != 'heap' and not str(loc2[0]).startswith('arc'):
                        continue
                    for w in degrees_in(x):
                        if w is not None and w != 'NLETTERS' and not names_width(b, w):
                            raise Mismatch('the Hall set made for a width is one of width %s' % w)
            R.decide('get_hall_set(%s)' % ('None' if pre is None else 'Some(%s)' % pre), b,
                     'with other threads adding entries at every acquisition: shared entries are never replaced or removed, the set returned is the one the cache holds for the width, and only that width gains an entry', ob)
    locks(R)

def names_width(b, w):
    return any(a.get('n') == w for a in b.get('args') or ())

def degrees_in(v):
    if isinstance(v, Opaque) and isinstance(v.d, tuple):
        t = v.d
        if t[0] == 'degrees':
            yield t[1]
    if isinstance(v, StructV):
        for f in v.fields:
            yield from degrees_in(f)
    if isinstance(v, IteV):
        yield from degrees_in(v.a)
        yield from degrees_in(v.b)

# ------------------------------------------------------------------ 2. lock dataflow
GUARDS = ('RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard', 'MappedMutexGuard', 'MappedRwLockReadGuard', 'MappedRwLockWriteGuard')

def guards(t, out=None):
    """lock classes of the guards a type carries: {(class, mode)}"""
    out = set() if out is None else out
    if not isinstance(t, dict):
        return out
    if t.get('k') == 'adt':
        n = t['p'].split('::')[-1]
        if n in GUARDS:
            out.add((json.dumps(t['a'][-1] if t.get('a') else None, sort_keys=True), 'read' if 'Read' in n else 'write'))
            return out
        for a in t.get('a') or ():
            guards(a, out)
    elif t.get('k') == 'tuple':
        for a in t.get('ts') or t.get('a') or ():
            guards(a, out)
    elif t.get('k') in ('array', 'slice'):
        guards(t['t'], out)
    return out

def acquires(t):
    """(class, mode, blocking) of a lock call"""
    f = (t['f'].get('c') or {}).get('f') or {}
    p = fname(f)
    n = p.split('::')[-1]
    if 'sync' not in p or n not in ('read', 'write', 'lock', 'try_read', 'try_write', 'try_lock') or not ('RwLock' in p or 'Mutex' in p):
        return None
    a = [x for x in f.get('a') or () if x.get('k') != 'cparam']
    cls = json.dumps(a[0] if a else None, sort_keys=True)
    return cls, ('read' if n.endswith('read') else 'write'), not n.startswith('try')

def nice(cls):
    try:
        t = json.loads(cls)
    except Exception:
        return cls
    def go(t):
        if not isinstance(t, dict):
            return '?'
        if t.get('k') == 'adt':
            a = [go(x) for x in t.get('a') or () if x.get('k') in ('adt', 'int', 'dyn')]
            return t['p'].split('::')[-1] + ('<%s>' % ', '.join(a[:2]) if a else '')
        return t.get('n') or t.get('k')
    return 'the lock of ' + go(t)

def locks(R):
    m = R.mir
    G = Graph(m)
    bodies = [b for b in m.bodies.values() if b.get('local') and b['blocks']]
    callee, acq = {}, {}
    virt = {}
    for b in m.roots:
        if b.get('impl_trait'):
            virt.setdefault((b['impl_trait'], b['name']), []).append(b['id'])
    def targets(t):
        c = G.callee(t)
        if c is not None:
            return [c]
        f = (t['f'].get('c') or {}).get('f') or {}
        if f.get('kind') == 'virtual' or (f.get('trait') and (f.get('self') or {}).get('k') in ('dyn', 'dynamic')):
            return [i for i in virt.get((f['trait'], f['m']), []) if not holds_dyn(m, m.bodies[i].get('impl_self'), f['trait'])]
        return []
    clo = {}
    for b in bodies:
        for x in b['blocks']:
            if x['t']['k'] == 'call':
                callee[id(x['t'])] = targets(x['t'])
    # what a function may acquire, itself or through calls
    may = {b['id']: set() for b in m.bodies.values()}
    closures = {}
    for b in m.bodies.values():
        if b['kind'] == 'Closure':
            closures.setdefault(b['p'], b['id'])
    ch = True
    while ch:
        ch = False
        for b in bodies:
            s = set(may[b['id']])
            for x in b['blocks']:
                if x['cleanup']:
                    continue
                for st in x['s']:
                    if st['k'] == '=' and st['r'].get('k') == 'agg' and 'closure' in json.dumps(st['r'].get('kind', st['r']))[:200]:
                        for p, i in closures.items():
                            if p in json.dumps(st['r']):
                                s |= may[i]
                t = x['t']
                if t['k'] == 'call':
                    a = acquires(t)
                    if a:
                        s.add(a)
                    for c in callee.get(id(t), ()):
                        s |= may[c]
            if s != may[b['id']]:
                may[b['id']] = s
                ch = True
    edges = {}
    nl = 0
    for b in bodies:
        if not b.get('isroot') and b['kind'] != 'Closure':
            continue
        if not may[b['id']] and not any(guards(t) for t in b['locals']):
            continue
        nl += 1
        R.fns.add(b['p'])
        def ob(b=b):
            flow(R, m, b, may, callee, edges, closures)
        R.decide('locks held in ' + b['p'], b, 'no lock is requested, here or in a function called, while a guard of the same lock is live', ob)
    def order():
        # a cycle between different locks
        for (x, y), w in edges.items():
            seen, todo = set(), [y]
            while todo:
                z = todo.pop()
                if z == x:
                    raise Mismatch('%s is requested while %s is held (%s), and the other way round elsewhere (%s)'
                                   % (nice(y), nice(x), w, '; '.join(v for (p, q), v in edges.items() if q == x)))
                if z in seen:
                    continue
                seen.add(z)
                todo += [q for (p, q) in edges if p == z]
    R.decide('lock order', None, 'the order in which locks are requested while others are held has no cycle', order)
    def data():
        R.sites += len(m.d['unsafes'])
        for u in m.d['unsafes']:
            w = json.dumps(u)
            if '/lie/' in w or 'lie::' in w:
                raise Mismatch('unsafe code reaches the data of shared Hall sets without the lock (%s)' % w[:200])
        for b in bodies:
            if 'lie::' not in b['p']:
                continue
            for x in b['blocks']:
                if x['t']['k'] == 'call':
                    p = fname((x['t']['f'].get('c') or {}).get('f') or {})
                    if p.split('::')[-1] in ('get_mut_unchecked', 'data_ptr', 'force_unlock', 'as_ptr') and ('sync' in p or 'Arc' in p):
                        raise Mismatch('%s reaches shared data around its lock through %s (%s:%s)' % (b['p'], p, b['file'], x['t'].get('line')))
    R.decide('access under the lock', None, 'no unsafe code or unchecked access reaches what the locks protect, so the type system ties every access to a guard', data)

def holds_dyn(m, t, trait):
    """the type stores an object of the same trait behind a lock (a wrapper, not the wrapped set)"""
    a = m.adts.get((t or {}).get('p'))
    return bool(a) and trait in json.dumps(a) and ('RwLock' in json.dumps(a) or 'Mutex' in json.dumps(a))

def flow(R, m, b, may, callee, edges, closures):
    """live guards: per block the set of possible {(local, class, mode)}"""
    seen = {}
    todo = [(0, frozenset())]
    cap = 0
    while todo:
        bb, H = todo.pop()
        if H in seen.setdefault(bb, set()):
            continue
        seen[bb].add(H)
        cap += 1
        if cap > 20000:
            raise Undecided('too many paths')
        bl = b['blocks'][bb]
        if bl['cleanup']:
            continue
        H = set(H)
        def kill(l):
            for g in [g for g in H if g[0] == l]:
                H.discard(g)
        def moved(o):
            """guards moved out of an operand"""
            if o['k'] == 'move':
                gs = [g for g in H if g[0] == o['pl']['l']]
                if gs:
                    # a part moved out takes the guard only if the part carries it
                    if o['pl']['p'] and not any(x for x in o['pl']['p']):
                        return []
                    for g in gs:
                        H.discard(g)
                return gs
            return []
        for s in bl['s']:
            if s['k'] == 'dead':
                kill(s['l'])
            elif s['k'] == '=':
                gs = []
                r = s['r']
                for o in operands(r):
                    gs += moved(o)
                if gs and guards(b['locals'][s['pl']['l']]):
                    for g in gs:
                        H.add((s['pl']['l'], g[1], g[2]))
                elif gs and r.get('k') == 'agg':
                    for g in gs:            # captured by a closure or stored in a structure
                        H.add((s['pl']['l'], g[1], g[2]))
        t = bl['t']
        if t['k'] == 'drop':
            if not t['pl']['p']:
                kill(t['pl']['l'])
        if t['k'] == 'call':
            R.sites += 1
            a = acquires(t)
            need = set()
            if a:
                need.add(a)
            for c in callee.get(id(t), ()):
                need |= may[c]
            for o in t['args']:
                if o['k'] in ('move', 'copy') and not o['pl']['p']:
                    for p in closures_in(b['locals'][o['pl']['l']]):
                        need |= may.get(closures.get(p), set())
            for cls, mode, blocking in need:
                for l, hc, hm in H:
                    if not blocking:
                        continue
                    if hc == cls:
                        f = fname((t['f'].get('c') or {}).get('f') or {})
                        raise Mismatch('%s requests %s access to %s at %s:%s%s while its own %s guard is live: the thread waits for itself'
                                       % (b['p'], mode, nice(cls), b['file'], t.get('line'), '' if a else ' (through %s)' % f, hm))
                    edges.setdefault((hc, cls), '%s, %s:%s' % (b['p'], b['file'], t.get('line')))
            gs = []
            for o in t['args']:
                gs += moved(o)
            d = t['dest']['l']
            dg = guards(b['locals'][d])
            if dg:
                if a:
                    H.add((d, a[0], a[1]))
                for g in gs:
                    H.add((d, g[1], g[2]))
                if not a and not gs:
                    for c, md in dg:        # a function that returns a guard
                        H.add((d, c, md))
        fs = frozenset(H)
        for y in cfg_succs(t):
            if y != 'RET':
                todo.append((y, fs))

def closures_in(t):
    if isinstance(t, dict):
        if t.get('k') == 'closure':
            yield t.get('p')
        elif t.get('k') == 'ref':
            yield from closures_in(t.get('t'))

def operands(r):
    out = []
    for k in ('o', 'a', 'b', 'l', 'r'):
        x = r.get(k)
        if isinstance(x, dict) and x.get('k') in ('move', 'copy'):
            out.append(x)
    for k in ('os', 'ops', 'fields', 'args'):
        for x in r.get(k) or ():
            if isinstance(x, dict) and x.get('k') in ('move', 'copy'):
                out.append(x)
    return out
