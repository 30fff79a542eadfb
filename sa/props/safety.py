"""C01: no safe call can cause an access outside the memory owned or borrowed.
Code without unsafe operations has the property by Rust's type system. Every unsafe operation that is there has to
be discharged: it is analysed in every context the other properties analyse, and with bases that answer nonsense
(a basis is safe code) and vectors of any length."""
import importlib, os
from ..spec import *
from ..contracts import AbsBasis, RogueBasis
from . import dense

MODULES = [('dense', 'C05'), ('dense', 'C06'), ('dense', 'C21d'), ('sparse', 'C07'), ('sparse', 'C08'), ('sparse', 'C21s'),
           ('wrappers', 'C09'), ('product', 'C10'), ('derived', 'C03'), ('derived', 'C04'), ('derived', 'C11'), ('series', 'C12'),
           ('coeff', 'C02'), ('words', 'C15'), ('hall', 'C16'), ('hall', 'C17'), ('hall', 'C20'), ('words', 'C13'), ('words', 'C14')]

class Probe(Rec):
    """runs the obligations of another property for the unchecked operations they reach"""
    def __init__(self, R):
        super().__init__(R.pid, R.mir)
        self.hits, self.events = [], {}
        self.budget, self.t0 = R.budget and R.budget - 60, R.t0
        self.limit = 60

    def decide(self, name, body, rule, fn, shapes=None):
        super().decide(name, body, rule, fn, shapes)
        for I in self._I:
            for ok, file, line in I.unchecked:
                self.events.setdefault((file, line), []).append(ok)
            for pc, kind, where, p in I.panics:
                if kind != Md.UNCHECKED or I.param:
                    continue
                fs = [(c, True) for c in pc]
                if not possible(fs):
                    continue
                e = witness.find(fs)
                if e is not None:
                    self.hits.append((where, p, name, witness.show_env(e)))
        self._I = []

def rogue(P):
    """the dense vector operations that ask the basis, over a basis that answers anything"""
    m = P.mir
    L = layout_or_none(m)
    if L is None:
        return
    for n in ('get', 'get_mut', 'insert_single', 'erase', 'from_key', 'from_key_scalar', 'from_iterator', 'insert', 'add_scal', 'sub_scal'):
        b = m.method('SimpleDenseVector', 'Vector', n)
        if b is None:
            continue
        for k in L.kinds:
            for cnt in (2, 1, 0) if n in ('from_iterator', 'insert') else (1,):
                def ob(b=b, n=n, k=k, cnt=cnt):
                    for ln in (var('n', 0, None), lift(0), lift(2)):
                        I, st = P.interp(), State()
                        I.basis = RogueBasis()
                        a = L.put(st, dense.seqof('a', ln), k, 'a')
                        st.mem[('in', 'k')] = var('k')
                        kr = RefV(('in', 'k'))
                        items = SeqList([tup(var('k%d' % i), var('s%d' % i)) for i in range(cnt)])
                        args = {'from_key': [var('k')], 'from_key_scalar': [var('k'), var('s')], 'from_iterator': [items], 'insert': [a, items],
                                'insert_single': [a, kr, var('s')]}.get(n) or ([a, kr] + ([var('s')] if 'scal' in n else []))
                        try:
                            run(I, b, args, st)
                        except Undecided:
                            pass
                P.decide('%s over a basis that answers anything [%s, %d]' % (n, k, cnt), b, 'stays in bounds', ob)

def layout_or_none(m):
    try:
        return dense.Layout(m)
    except Undecided:
        return None

def derefs(x, raw):
    if isinstance(x, dict):
        if x.get('l') in raw and x.get('p'):
            return True
        return any(derefs(y, raw) for y in x.values())
    if isinstance(x, list):
        return any(derefs(y, raw) for y in x)
    return False

def operations(m, u):
    """unsafe operations inside the region: (body, line, what, modelled)"""
    out = []
    for b in m.bodies.values():
        if not b.get('local', True) or b.get('file') != u['file']:
            continue
        raw = {n for n, l in enumerate(b['locals']) if l.get('k') == 'ptr'}
        for blk in b['blocks']:
            t = blk['t']
            if t['k'] == 'call' and u['line'] <= (t.get('line') or -1) <= u['end']:
                f = (t['f'].get('c') or {}).get('f') or {}
                if f.get('uns'):
                    out.append((b, t['line'], f.get('rp') or f.get('p')))
            for x in blk['s']:
                if u['line'] <= (x.get('line') or -1) <= u['end'] and "'ck': 'Transmute'" in str(x):
                    out.append((b, x['line'], 'transmute'))
                if u['line'] <= (x.get('line') or -1) <= u['end'] and raw and derefs(x, raw):
                    out.append((b, x['line'], 'access through a raw pointer'))
    return out

def params(t):
    if isinstance(t, dict):
        if t.get('k') == 'param':
            return {t['n']}
        return set().union(*[params(x) for x in t.values()]) if t else set()
    if isinstance(t, list):
        return set().union(*[params(x) for x in t]) if t else set()
    return set()

def shareable(im, m):
    """an implementation of Send or Sync by hand: why it is wrong, or None"""
    tr = im['trait'].split('::')[-1]
    adt = m.adts.get(im['self'].get('p'))
    if adt is None:
        return 'it is declared %s for a type of another crate' % tr
    seen, todo, fields = set(), [adt], []
    while todo:
        a = todo.pop()
        if a['p'] in seen:
            continue
        seen.add(a['p'])
        for v in a['variants']:
            for f in v['f']:
                fields.append(f['t'])
                todo += [m.adts[p] for p in m.adts if ("'%s'" % p) in str(f['t'])]
    s = str(fields)
    for bad in ('rc::Rc', 'cell::Cell', 'cell::RefCell', 'cell::UnsafeCell', 'MutexGuard') if tr == 'Send' else ('rc::Rc', 'cell::Cell', 'cell::RefCell', 'cell::UnsafeCell'):
        if bad in s:
            return 'it holds a %s, which is not %s' % (bad.split('::')[-1], tr)
    # (a parameter that occurs only in PhantomData still counts: rustc would demand the bound as well)
    for p in params(im['self']):
        if p in params(fields) and not any(('<%s as ' % p) in q and (q.split(' as ')[1].startswith('std::marker::' + tr) or q.split(' as ')[1].startswith('core::marker::' + tr)) for q in im.get('preds', []) if ' as ' in q):
            return 'it is declared %s for every %s, %s or not' % (tr, p, tr)
    return None

def C01(R):
    m = R.mir
    us = [u for u in m.d['unsafes'] if not u['ext']]
    local = [b for b in m.bodies.values() if b.get('local', True)]
    R.sites += sum(len(b['blocks']) for b in local)
    R.fns |= {b['p'] for b in local}
    def absence():
        return 'proved'
    if not us:
        R.decide('no unsafe code', None, 'the library has no unsafe block, function, implementation, foreign item, union or mutable static, so the type system excludes undefined behaviour (%d functions inspected)' % len(local), absence)
        return
    P = Probe(R)
    if any(u['what'] in ('block', 'fn') for u in us):
        rogue(P)
        for mod, fn in MODULES:
            try:
                getattr(importlib.import_module('sa.props.' + mod), fn)(P)
            except Undecided:
                pass
            if P.hits:
                break
        R.fns |= P.fns
        R.sites += P.sites
    for u in us:
        body = next((b for b in local if b['p'] == u['p']), None) or dict(p=u['p'], file=u['file'], line=u['line'])
        name = 'unsafe %s in %s' % (u['what'], u['p'])
        def ob(u=u):
            if u['what'] == 'impl':
                im = next((i for i in m.impls if i.get('p') == u['p']), None)
                if im and (im.get('trait') or '').split('::')[-1] in ('Send', 'Sync'):
                    why = shareable(im, m)
                    if why:
                        raise Mismatch('a type is declared safe to share between threads, but %s' % why)
                    return 'proved'
                raise Undecided('an unsafe implementation (%s)' % u['p'])
            if u['what'] == 'static mut':
                raise Mismatch('a mutable static (%s) can be accessed by two threads at once' % u['p'])
            if u['what'] in ('union', 'extern'):
                raise Undecided('%s %s' % (u['what'], u['p']))
            inside = lambda f, l: os.path.basename(f) == os.path.basename(u['file']) and u['line'] <= int(l or -1) <= u['end']
            if u['what'] == 'fn':
                return 'proved' # its operations are judged where safe code calls it
            for where, p, ctx, env in P.hits:
                raise Mismatch('%s reads or writes out of bounds (%s), for example in %s%s' % (p, where, ctx, ' with ' + env if env else ''))
            evs = [(k, v) for k, v in P.events.items() if inside(*k)]
            ops = operations(m, u)
            for b, l, what in ops:
                if not any(int(k[1] or -1) == l for k, v in evs):
                    raise Mismatch('nothing establishes that the unchecked operation %s (%s:%s) is in bounds' % (what, u['file'], l))
            if not ops and not evs:
                raise Undecided('no recognised unchecked operation in the block')
            bad = [k for k, v in evs if not all(v)]
            if bad:
                raise Undecided('not all accesses at %s are shown to be in bounds' % (bad,))
            return 'bounded'
        R.decide(name, body, 'every unchecked operation is within the memory owned or borrowed, whatever safe code passes', ob)
