"""C19: no operation ends in a not-implemented panic; none calls itself on every path.

Call-graph fixpoint over the resolved MIR: a function is endless when every path from its entry to a return
(or to a panic) goes through a call to an endless function; the greatest such set is computed, so direct and
mutual recursion (also through formatting and through the standard library's provided trait methods) is found."""
import json
from ..spec import *
from ..cfg import succs as cfg_succs

NOTIMPL = ('not yet implemented', 'not implemented')
FMT = {'new_display': 'Display', 'new_debug': 'Debug', 'new_lower_hex': 'LowerHex', 'new_upper_hex': 'UpperHex', 'new_binary': 'Binary', 'new_octal': 'Octal', 'new_lower_exp': 'LowerExp', 'new_upper_exp': 'UpperExp'}
PROVIDED = {'ne': ('PartialEq', 'eq'), 'lt': ('PartialOrd', 'partial_cmp'), 'le': ('PartialOrd', 'partial_cmp'), 'gt': ('PartialOrd', 'partial_cmp'),
            'ge': ('PartialOrd', 'partial_cmp'), 'max': ('Ord', 'cmp'), 'min': ('Ord', 'cmp'), 'to_string': ('Display', 'fmt'), 'into': ('From', 'from'), 'to_owned': ('Clone', 'clone')}

def strip(t):
    while t and t.get('k') == 'ref':
        t = t['t']
    return t

class Graph:
    def __init__(self, m):
        self.m = m
        self.byname = {}
        for b in m.roots:
            s = b.get('impl_self')
            if s and b.get('impl_trait'):
                self.byname.setdefault((b['impl_trait'].split('::')[-1], b.get('name'), json.dumps(head(s))), b['id'])
        self.bypath = {}
        for b in m.roots:
            self.bypath.setdefault(b['p'], b['id'])
        self.promoted = {}

    def impl(self, trait, name, t):
        t = strip(t)
        if not t or t.get('k') != 'adt':
            return None
        return self.byname.get((trait, name, json.dumps(head(t))))

    def callee(self, t):
        """id of the local body a call certainly runs, if any"""
        f = t['f']
        c = f.get('c', {})
        if c.get('k') != 'fn':
            return None
        f = c['f']
        if f.get('kind') == 'virtual':
            return None
        i = f.get('id')
        if i is not None and i in self.m.bodies:
            return i
        rp = f.get('rp') or ''
        if f.get('rlocal') and rp in self.bypath:
            return self.bypath[rp]
        last = (f.get('p') or '').split('::')[-1]
        if last in FMT and 'fmt::rt' in f['p']:
            return self.impl(FMT[last], 'fmt', f['a'][-1] if f.get('a') else None)
        if f.get('trait') and not f.get('rlocal'):
            tr = f['trait'].split('::')[-1]
            r = self.impl(tr, f['m'], f.get('self'))
            if r is None and f['m'] in PROVIDED:
                r = self.impl(PROVIDED[f['m']][0], PROVIDED[f['m']][1], f.get('self'))
            return r
        return None

def head(t):
    return t['p'] if t.get('k') == 'adt' else t.get('k')

def succs(t):
    return [x for x in cfg_succs(t) if x != 'RET']

def reach(b, cut=lambda t: False):
    """blocks reached from the entry along normal control flow; a call for which cut holds is not passed"""
    seen, todo = {0}, [0]
    while todo:
        x = todo.pop()
        t = b['blocks'][x]['t']
        if t['k'] == 'call' and cut(t):
            continue
        for y in succs(t):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen

def exits(b, seen, cut):
    """some path ends (returns or panics) without passing a cut call"""
    for x in seen:
        t = b['blocks'][x]['t']
        if t['k'] in ('return', 'resume', 'unreachable', 'assert'):
            return True
        if t['k'] == 'call' and not cut(t) and t.get('t') is None:
            return True
    return False

def consts_text(b, blk):
    return json.dumps(b['blocks'][blk])

def C19(R):
    m = R.mir
    G = Graph(m)
    local = [b for b in m.bodies.values() if b.get('local')]
    # ---- not-implemented panics
    done = set()
    for b in m.roots + [x for x in local if x['kind'] == 'Closure']:
        if b['p'] in done or not b.get('local') or not b['blocks']:
            continue
        done.add(b['p'])
        R.fns.add(b['p'])
        def ob(b=b):
            seen = reach(b)
            R.sites += len(seen)
            prom = [x for x in local if x['p'] == b['p'] and x is not b and x['argc'] == 0 and x['kind'] != 'Closure']
            for x in sorted(seen):
                t = b['blocks'][x]['t']
                if t['k'] != 'call' or t.get('t') is not None:
                    continue
                p = (t['f'].get('c', {}).get('f') or {}).get('p', '')
                hit = 'todo_default_msg' in p or 'unimplemented' in p.split('::')[-1]
                if not hit and 'panic' in p:
                    txt = json.dumps(b['blocks'][x])
                    # arguments of this panic: look back through the straight line of blocks that builds them
                    txt += ''.join(json.dumps(b['blocks'][y]) for y in straight(b, x))
                    if any(s in txt for s in NOTIMPL):
                        hit = True
                    if not hit and any(s in json.dumps(q) for q in prom for s in NOTIMPL) and 'fmt' in p:
                        hit = True
                if hit:
                    raise Mismatch('%s ends in a not-yet-implemented panic at %s:%s' % (b['p'], b['file'], t.get('line')))
            ret = b['locals'][0]
            if b['kind'] != 'Closure' and ret.get('k') != 'never' and not any(b['blocks'][x]['t']['k'] == 'return' for x in seen):
                raise Mismatch('no path of %s (%s:%s) returns: the operation is not implemented' % (b['p'], b['file'], b['line']))
        tr = (b.get('impl_trait') or '').split('::')[-1]
        R.decide('implemented: ' + b['p'], b, 'no reachable block ends in todo!/unimplemented!, and some path returns', ob)
        if tr == 'HallSet' and tyname(b['impl_self']) != 'HallSetObject':
            # the sets behind a HallSetObject are private types, known by what they implement
            R.obs[-1]['key'] = 'implemented: HallSet::%s of the set behind a HallSetObject' % b['name']
    # ---- endless recursion
    N = {b['id'] for b in m.bodies.values()}
    callees = {}
    for b in m.bodies.values():
        for x in b['blocks']:
            if x['t']['k'] == 'call':
                callees[id(x['t'])] = G.callee(x['t'])
    while True:
        cut = lambda t: callees[id(t)] in N
        out = [i for i in N if exits(m.bodies[i], reach(m.bodies[i], cut), cut)]
        if not out:
            break
        N -= set(out)
    bad = {}
    for i in N:
        bad.setdefault(m.bodies[i]['p'], m.bodies[i])
    done = set()
    for b in m.roots:
        if b['p'] in done or not b.get('local') or not b['blocks']:
            continue
        done.add(b['p'])
        def ob(b=b):
            if b['id'] in N:
                chain = cycle(m, b['id'], N, callees)
                raise Mismatch('every path of %s goes through %s without end' % (b['p'], ' -> '.join(chain) if chain else 'a loop that has no exit'))
            w = same_args(m, G, b, callees)
            if w:
                raise Mismatch('%s calls itself at %s:%s with the arguments it was given, and nothing it depends on has changed' % (b['p'], b['file'], w))
        R.decide('recursion: ' + b['p'], b, 'some path returns without a call that runs endlessly; no call of itself with unchanged arguments', ob)

    # ---- provided methods that only call each other, for a type that overrides none of them
    prov = {}
    for b in m.roots:
        if b.get('trait') and b.get('local') and b['blocks']:
            prov[(b['trait'], b['name'])] = b
    bytype = {}
    for i in m.impls:
        if i.get('trait'):
            bytype.setdefault(json.dumps(i['self']), {})[i['trait']] = {x[1] for x in i['items']}
    for ty, trs in sorted(bytype.items()):
        nodes = {k for k in prov if k[0] in trs and k[1] not in trs[k[0]]}
        if not nodes:
            continue
        def ob(ty=ty, nodes=nodes):
            def to(t):
                f = t['f'].get('c', {}).get('f') or {}
                if f.get('trait') and (f.get('self') or {}).get('n') == 'Self' and 'rp' not in f:
                    return (f['trait'], f['m'])
                return None
            n = set(nodes)
            while True:
                cut = lambda t: to(t) in n
                out = {k for k in n if exits(prov[k], reach(prov[k], cut), cut)}
                if not out:
                    break
                n -= out
            if n:
                k = sorted(n)[0]
                raise Mismatch('for %s the provided method %s::%s (%s:%s) never ends: it only goes through %s' % (ty[:120], k[0], k[1], prov[k]['file'], prov[k]['line'], ', '.join(x[1] for x in sorted(n))))
        R.decide('provided methods for ' + ty[:100], None, 'provided methods that a type does not override do not call each other on every path', ob)

def straight(b, x):
    pred = {}
    for i, bl in enumerate(b['blocks']):
        for y in succs(bl['t']):
            pred.setdefault(y, []).append(i)
    out = []
    while len(pred.get(x, ())) == 1 and len(out) < 6:
        y = pred[x][0]
        if b['blocks'][y]['t']['k'] not in ('call', 'goto', 'drop'):
            break
        out.append(y)
        x = y
    return out

def cycle(m, i, N, callees):
    seen, out = [], []
    while i not in seen:
        seen.append(i)
        b = m.bodies[i]
        nxt = [callees[id(x['t'])] for x in b['blocks'] if x['t']['k'] == 'call' and callees[id(x['t'])] in N]
        if not nxt:
            return []
        out.append(m.bodies[nxt[0]]['p'])
        i = nxt[0]
    return out

IMPURE = ('sync::', 'lazy_static', 'cell::', 'thread::', 'std::io', 'std::env', 'std::time', 'rand')

def frozen(t):
    """the argument type cannot change between two calls with the same argument"""
    s = json.dumps(t)
    return '"mut": true' not in s and not any(x in s for x in ('sync::', 'cell::', '"closure"', '"fnptr"', '"dyn"'))

def same_args(m, G, b, callees):
    """line of a call of the function itself that passes its own parameters on unchanged"""
    if not all(frozen(t) for t in b['locals'][1:1 + b['argc']]) or not b['argc']:
        return None
    # where locals get their values
    defs = {}
    for bl in b['blocks']:
        for s in bl['s']:
            if s['k'] == '=':
                defs.setdefault(s['pl']['l'], []).append(s)
        if bl['t']['k'] == 'call':
            defs.setdefault(bl['t']['dest']['l'], []).append(bl['t'])
    def origin(pl, n=0):
        l, p = pl['l'], pl['p']
        if n > 12:
            return None
        if 1 <= l <= b['argc'] and l not in defs:
            return (l, json.dumps(p))
        if p and p != [{'k': 'deref'}] and p != ['deref'] or len(defs.get(l, ())) != 1:
            return None
        s = defs[l][0]
        if s.get('k') != '=' or s['pl']['p']:
            return None
        r = s['r']
        if not p and r['k'] == 'use' and r['o']['k'] in ('copy', 'move'):
            return origin(r['o']['pl'], n + 1)
        if r['k'] == 'ref' and not r.get('mut'):
            q = r['pl']
            if not p and q['p'] and len(q['p']) == 1:      # &*x: the same reference again
                return origin({'l': q['l'], 'p': []}, n + 1)
            if p and not q['p']:
                return origin(q, n + 1)
            if not p and not q['p']:
                return ('ref', origin(q, n + 1))
        return None
    mine = {b['id']} | {x['id'] for x in m.bodies.values() if x['p'] == b['p'] and x['argc'] == b['argc'] and x.get('args') == b.get('args')}
    seen = reach(b)
    for x in seen:
        t = b['blocks'][x]['t']
        if t['k'] != 'call':
            continue
        c = callees[id(t)]
        f = (t['f'].get('c', {}).get('f') or {})
        if c not in mine:
            continue
        fmt = 'fmt::rt' in f.get('p', '')
        os = [origin(a['pl']) if a['k'] in ('copy', 'move') else None for a in t['args']]
        def is_param(o, n):
            while o and o[0] == 'ref':
                o = o[1]
            return bool(o) and o[0] == n and o[1] == '[]'
        ok = is_param(os[0], 1) if fmt else len(os) == b['argc'] and all(is_param(o, n + 1) for n, o in enumerate(os))
        if not fmt and any(o and o[0] == 'ref' for o in os) and not (f.get('trait') and not f.get('rlocal')):
            ok = False
        if ok and not impure(m, b, callees):
            return t.get('line')
    return None

def impure(m, b, callees):
    seen, todo = set(), [b['id']]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for x in m.bodies[i]['blocks']:
            t = x['t']
            if t['k'] == 'call':
                f = (t['f'].get('c', {}).get('f') or {})
                if any(s in (f.get('p') or '') or s in (f.get('rp') or '') for s in IMPURE):
                    return True
                c = callees.get(id(t))
                if c is not None:
                    todo.append(c)
            if 'static' in json.dumps(x['s']):
                return True
    return False
