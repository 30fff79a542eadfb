"""C25 what is printed: the text an implementation of Display or Debug writes, as a sequence of literal
pieces and printed values, compared with the specified sequence."""
import ast, re
from ..spec import *
from ..contracts import AbsBasis
from .words import Words
from .dense import Layout, seqof

# ------------------------------------------------------------------ text
# a text is Opaque(('text', pieces, writes)); a piece is a str or ('v', kind, value); kind says how the
# value is printed: 'int' (decimal), 'lower_hex', .., 'Display' or 'Debug' (of another type), or ('formatted', flags, width,
# precision)
def fold(p):
    """a piece whose text is known"""
    if isinstance(p, str):
        return p
    k, v = p[1], p[2]
    c = v.as_int() if isinstance(v, Poly) else None
    if c is not None and k == 'int':
        return str(c)
    if c is not None and k in ('lower_hex', 'upper_hex') and c >= 0:
        return '%x' % c if k == 'lower_hex' else '%X' % c
    if isinstance(k, tuple) and k[0] == 'formatted':
        flags, width, prec = k[1:]
        inner = text(v).d[1]
        if len(inner) == 1 and isinstance(inner[0], str) and flags >> 21 & 0x3f == 0 and prec is None and len(inner[0]) >= width:
            return inner[0]
    return p

def text(ps=(), n=0):
    r = []
    for p in ps:
        p = fold(p)
        if isinstance(p, str):
            if not p:
                continue
            if r and isinstance(r[-1], str):
                r[-1] += p
                continue
        r.append(p)
    return Opaque(('text', tuple(r), n))

def static(v):
    """the text of a string constant, or None"""
    if isinstance(v, Opaque) and isinstance(v.d, tuple) and v.d[0] in ('static', 'const') and isinstance(v.d[1], str):
        s = v.d[1]
        if s.startswith('"') and s.endswith('"') and len(s) >= 2:
            s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda x: '\\U%08x' % int(x.group(1), 16), s)
            try:
                return ast.literal_eval(s.replace('\n', '\\n'))
            except (SyntaxError, ValueError):
                return None
    return None

def template(v):
    if isinstance(v, Opaque) and isinstance(v.d, tuple) and isinstance(v.d[1], str) and v.d[1].startswith('b"'):
        try:
            return ast.literal_eval(v.d[1])
        except (SyntaxError, ValueError):
            pass
    raise Undecided('a format template is expected, got %r' % (v,))

def pieces(v):
    """the pieces of a value that is a string"""
    s = static(v)
    if s is not None:
        return (s,)
    if isinstance(v, Opaque) and isinstance(v.d, tuple) and v.d[0] == 'text':
        return v.d[1]
    raise Undecided('a string is expected, got %r' % (v,))

def below(st, v, f):
    if isinstance(v, IteV):
        d = st.decide(v.c)
        if isinstance(d, bool):
            return below(st, v.a if d else v.b, f)
        return merge(v.c, below(st, v.a, f), below(st, v.b, f))
    return f(v)

OKV = StructV(RESULT, 0, (tup(),))
ERRV = StructV(RESULT, 1, (StructV('core::fmt::Error', 0, ()),))

def is_text(v):
    return isinstance(v, Opaque) and isinstance(v.d, tuple) and v.d[0] == 'text'

class Printer:
    """models of core::fmt and of the strings made with it"""
    def __init__(self, R, I, fail=None):
        self.R, self.I, self.fail = R, I, fail
        self.inner = I.hooks.get('call')
        I.hooks['call'] = self.hook

    def start(self, st):
        st.mem[('in', 'f')] = text()
        return RefV(('in', 'f'))

    def put(self, st, sink, ps):
        """append to a formatter or a string; the result of the write"""
        ref, v = Md.lastref(st, sink)
        out = []
        def one(v):
            if not is_text(v):
                raise Undecided('writing to %r' % (v,))
            n = v.d[2]
            if self.fail is not None and ref.loc == ('in', 'f') and n == self.fail:
                out.append(ERRV)
                return Opaque(('text', v.d[1], n + 1))
            out.append(OKV)
            return text(v.d[1] + tuple(ps), n + 1)
        st.write(ref, below(st, v, one))
        if len(set(x.variant for x in out)) > 1:
            raise Undecided('a write that fails on some paths')
        return out[0]

    def shown(self, st, how, ty, v):
        """the pieces of a value printed by the trait `how`"""
        while ty is not None and ty.get('k') == 'ref':
            ty = ty['t']
        k = ty.get('k') if ty else None
        r, x = Md.lastref(st, v)
        if is_text(x) or static(x) is not None:
            if how != 'Display':
                raise Undecided('%s of a string' % how)
            return pieces(x)
        if k == 'int':
            if not isinstance(x, Poly):
                raise Undecided('printing %r' % (x,))
            if how in ('Display', 'Debug'):
                return (('v', 'int', x),)
            return (('v', how, x),)
        if k == 'char' and isinstance(x, Poly) and x.as_int() is not None and how == 'Display':
            return (chr(x.as_int()),)
        if isinstance(x, Opaque) and isinstance(x.d, tuple) and x.d[0] == 'fmtargs':
            return x.d[1]
        if isinstance(x, StructV) and isinstance(x.tag, str) and x.tag in self.R.mir.adts:
            b = self.R.mir.method(x.tag.split('::')[-1], how, 'fmt')
            if b is None:
                raise Undecided('%s of %s' % (how, x.tag))
            loc = ('tmp', fresh('fmt'))
            st.mem[loc] = text()
            self.I.call_body(b, [r, RefV(loc)], st)
            return pieces(st.mem[loc])
        if isinstance(x, (Poly, Opaque)) or k in ('param', 'float', 'proj', 'alias'):
            return (('v', how, x),)
        raise Undecided('printing %r' % (x,))

    def expand(self, st, tpl, args):
        out, i, a = [], 0, 0
        def num(k):
            nonlocal i
            r = int.from_bytes(tpl[i:i + k], 'little')
            i += k
            return r
        while True:
            n = num(1)
            if n == 0:
                return tuple(out)
            if n <= 0x80:
                l = num(2) if n == 0x80 else n
                out.append(tpl[i:i + l].decode())
                i += l
                continue
            flags = num(4) if n & 1 else 0x20 | 3 << 29
            width = num(2) if n & 2 else 0
            prec = num(2) if n & 4 else None
            if n & 8:
                a = num(2)
            if n & 0x30:
                raise Undecided('a width or precision given as an argument')
            how, ty, v = args[a]
            a += 1
            ps = self.shown(st, how, ty, v)
            if flags >> 21 & 0x3f or prec is not None or width > 1:
                ps = (('v', ('formatted', flags, width, prec), tuple(ps)),)
            out += ps

    def hook(self, I, f, args, st, fr, t):
        if self.inner:
            r = self.inner(I, f, args, st, fr, t)
            if r is not None:
                return r
        p = f.get('rp') or f.get('p') or ''
        nm = f.get('m') or p.split('::')[-1]
        tr = (f.get('trait') or '').split('::')[-1]
        if 'fmt::Arguments' in p:
            if nm in ('from_str', 'from_str_nonconst'):
                return Opaque(('fmtargs', pieces(Md.rd(st, args[0]))))
            if nm == 'new':
                tpl = template(Md.rd(st, args[0]))
                s = Md.rd(st, args[1])
                n = s.len.as_int()
                av = [Md.rd(st, seq_get(s, lift(i))) for i in range(n)]
                return Opaque(('fmtargs', self.expand(st, tpl, [x.d[1:] for x in av])))
            raise Undecided('no model for ' + p)
        if 'fmt::rt::Argument' in p and nm.startswith('new_'):
            how = {'new_display': 'Display', 'new_debug': 'Debug'}.get(nm, nm[4:])
            ty = (f.get('a') or [None])[0]
            # what is printed is decided now: the value cannot change while it is borrowed
            ps = self.shown(st, how, ty, args[0])
            return Opaque(('fmtarg', 'Display', None, Opaque(('text', tuple(ps), 0))))
        if nm in ('write_fmt', 'write_str', 'write_char') and args and ('Formatter' in p or tr == 'Write' or 'fmt::Write' in p):
            x = Md.rd(st, args[1])
            if nm == 'write_fmt':
                return self.put(st, args[0], x.d[1])
            if nm == 'write_str':
                return self.put(st, args[0], pieces(x))
            c = x.as_int() if isinstance(x, Poly) else None
            if c is None:
                raise Undecided('an unknown character')
            return self.put(st, args[0], (chr(c),))
        if nm == 'pad' and 'Formatter' in p:
            return self.put(st, args[0], pieces(Md.rd(st, args[1])))
        if nm in ('alternate', 'sign_plus', 'sign_minus', 'sign_aware_zero_pad') and 'Formatter' in p:
            return False
        if nm in ('width', 'precision') and 'Formatter' in p:
            return StructV(OPTION, 0, ())
        if nm == 'fmt' and tr in ('Display', 'Debug') and not (f.get('id') in I.bodies and (f.get('rlocal') or f.get('local'))):
            return self.put(st, args[1], self.shown(st, tr, f.get('self'), args[0]))
        if p in ('alloc::fmt::format', 'alloc::fmt::format::format_inner'):
            return text(Md.rd(st, args[0]).d[1])
        if nm == 'to_string' and (tr in ('ToString', 'SpecToString') or 'to_string' in p):
            return text(self.shown(st, 'Display', f.get('self') or (f.get('a') or [None])[0], args[0]))
        if 'string::String' in p or (args and self.stringy(st, args[0])):
            if nm == 'extend' and len(args) == 2:
                v = Md.collect_vec(I, st, Md.iter_arg(I, st, args[1], f, fr, t))
                self.put(st, args[0], self.parts(st, v))
                return tup()
            return self.string(st, p, nm, args)
        if nm == 'collect' and Md.strip((f.get('a') or [{}])[-1]).get('p', '').endswith('string::String'):
            v = Md.collect_vec(I, st, Md.iter_arg(I, st, args[0], f, fr, t))
            return text(self.parts(st, v))
        if nm in ('join', 'concat') and args:
            s = Md.rd(st, args[0])
            if isinstance(s, SeqV) and s.len.as_int() is not None:
                its = [Md.rd(st, seq_get(s, lift(i))) for i in range(s.len.as_int())]
                if all(is_text(x) or static(x) is not None for x in its):
                    sep = pieces(Md.rd(st, args[1])) if nm == 'join' else ()
                    out = ()
                    for i, x in enumerate(its):
                        out += (sep if i else ()) + pieces(x)
                    return text(out)
        return None

    def parts(self, st, s):
        n = s.len.as_int() if isinstance(s, SeqV) else None
        if n is None:
            raise Undecided('strings, of which the number is not known')
        out = ()
        for i in range(n):
            x = Md.rd(st, seq_get(s, lift(i)))
            c = x.as_int() if isinstance(x, Poly) else None
            out += (chr(c),) if c is not None else pieces(x)
        return out

    def stringy(self, st, v):
        try:
            x = Md.rd(st, v)
        except Undecided:
            return False
        return is_text(x) or static(x) is not None

    def string(self, st, p, nm, args):
        if nm in ('new', 'with_capacity', 'default'):
            return text()
        if not args or not self.stringy(st, args[0]):
            if nm == 'from' and args and isinstance(args[0], Poly) and args[0].as_int() is not None:
                return text((chr(args[0].as_int()),))
            return None
        x = Md.rd(st, args[0])
        if nm in ('push_str', 'add_assign'):
            self.put(st, args[0], pieces(Md.rd(st, args[1])))
            return tup()
        if nm == 'push':
            c = Md.rd(st, args[1])
            c = c.as_int() if isinstance(c, Poly) else None
            if c is None:
                raise Undecided('an unknown character')
            self.put(st, args[0], (chr(c),))
            return tup()
        if nm == 'add':
            return text(pieces(x) + pieces(Md.rd(st, args[1])))
        if nm in ('as_str', 'deref', 'borrow', 'as_ref', 'as_mut_str', 'deref_mut'):
            return Md.lastref(st, args[0])[0]
        if nm in ('to_owned', 'to_string', 'clone', 'from', 'into', 'into_boxed_str', 'into_string'):
            return text(pieces(x))
        if nm == 'is_empty':
            ps = pieces(x)
            return not ps or (len(ps) == 1 and ps[0] == '')
        if nm == 'reserve':
            return tup()
        return None

# ------------------------------------------------------------------ comparing
def show_pieces(ps):
    return ''.join(p if isinstance(p, str) else '{%s}' % (clip(show(p[2]), 40) if isinstance(p[2], Poly) else '..') for p in ps)

def same_text(got, want, what, st, facts):
    got, want = list(text(got).d[1]), list(text(want).d[1])
    msg = '%s is "%s", specified "%s"' % (what, clip(show_pieces(got), 200), clip(show_pieces(want), 200))
    n = 0
    while n < len(want) or n < len(got):
        if n >= len(got) or n >= len(want):
            return feasible(facts, msg)
        g, w = got[n], want[n]
        if isinstance(g, str) and isinstance(w, str):
            if g != w:
                # texts in which a value is written differently are compared only up to here
                return feasible(facts, msg)
        elif isinstance(g, str) or isinstance(w, str):
            # a digit string against an unknown number: equal in one case only, unless they start differently
            return feasible(facts, msg)
        elif isinstance(g[1], tuple) and g[1][0] == 'formatted':
            flags, width, prec = g[1][1:]
            inner = g[2]
            if flags >> 21 & 0x3f == 0 and prec is None and len(inner) == 1 and not isinstance(inner[0], str) and inner[0][1] == 'int' and w[1] == 'int':
                _num(inner[0][2], w[2], what, st, facts)
                _num(leq(lift(10 ** (width - 1)), w[2]), True, '%s: whether no space is put before a number' % what, st, facts)
            else:
                return feasible(facts, msg)
        elif g[1] != w[1]:
            if w[1] == 'int' and isinstance(g[2], Poly) and isinstance(g[1], str) and g[1].endswith('hex'):
                _num(lt(g[2], lift(10)), True, '%s: whether a number is decimal' % what, st, facts)
                _num(g[2], w[2], what, st, facts)
            else:
                return feasible(facts, msg)
        else:
            _num(g[2], w[2], '%s: a value printed' % what, st, facts)
        n += 1

def _num(a, b, what, st, facts):
    from ..spec import _same
    _same(a, b, what, st, facts)

def printed(o, st, want, what, facts=()):
    """the analysed implementation wrote exactly `want` and reports success"""
    no_panic(o, what)
    def go(v, fs):
        if isinstance(v, IteV):
            for c in (True, False):
                if possible(fs + [(v.c, c)]):
                    go(v.a if c else v.b, fs + [(v.c, c)])
            return
        same_text(pieces(v), want, what, st, fs)
    fs = facts_of(o.st, facts)
    go(o.st.mem[('in', 'f')], fs)
    same(o.val, OKV, 'whether %s is reported as written' % what, o.st, facts)

def writes(o):
    v = o.st.mem[('in', 'f')]
    return v.d[2] if is_text(v) else 1

def broken(P, b, args, fresh_state, what, n):
    """a writer that fails after k writes is reported, for every k"""
    for k in range(n):
        I, st, a = fresh_state(k)
        o = run(I, b, a, st)
        no_panic(o, what)
        v = o.val
        if not (isinstance(v, StructV) and v.tag == RESULT):
            raise Undecided('%s: a result is expected, got %r' % (what, v))
        if v.variant == 0:
            feasible(facts_of(o.st), '%s reports success although the writer failed at write %d' % (what, k + 1))

def C25(R):
    m = R.mir
    # words
    W = Words(R)
    for tr in ('Display', 'Debug'):
        b = m.method('TensorKey', tr, 'fmt')
        if b is None:
            R.missing('TensorKey: ' + tr, 'printing of words')
            continue
        if not W.there():
            break
        for N in (1, 2, 5, 16, 300):
            def ob(b=b, N=N, tr=tr):
                D = W.depth(N)
                for d in sorted({0, 1, 2, 3, 4, 7, 9, 10, D // 2, D - 1, D} & set(range(D + 1)) if not R.thorough else set(range(D + 1))):
                    ls = [var('l%d' % i, 1, N) if N > 1 else ONE for i in range(d)]
                    def go(fail=None):
                        I, st = W.interp(N)
                        k = W.build(I, st, ls)
                        P = Printer(R, I, fail)
                        return I, st, [k, P.start(st)]
                    I, st, a = go()
                    o = run(I, b, a, st)
                    want = ['(']
                    for i, l in enumerate(reversed(ls)):
                        want += ([', '] if i else []) + [('v', 'int', l)]
                    printed(o, st, want + [')'], 'the printed word of %d letters over %d' % (d, N))
                    if d in (0, 1, 3):
                        broken(None, b, a, go, 'printing a word', writes(o))
                return 'bounded'
            R.decide('%s of words over %d letters' % (tr, N), b, 'the letters, in the order of to_letters, separated by ", ", in one pair of parentheses; a failed write is reported', ob)
    # Hall keys
    from . import hall
    mk = m.inherent('HallKey', 'make_key_data')
    adt = next((p for p in m.adts if p.split('::')[-1] == 'HallKey'), None)
    F = dict(key=var('key', 0, hall.KB - 1), lp=var('lp', 0, hall.PB - 1), rp=var('rp', 0, hall.PB - 1), size=var('size', 0, hall.SB - 1))
    V = lambda x: ('v', 'int', x)
    N = var('N', 1, 2**32 - 1)
    for tr in ('Debug', 'Display'):
        b = m.method('HallKey', tr, 'fmt')
        if b is None or mk is None:
            R.missing('HallKey: ' + tr, 'printing of Hall keys')
            continue
        def ob(b=b, tr=tr):
            for cond in ([None] if tr == 'Debug' else [eq(F['size'], ONE), neg(eq(F['size'], ONE))]):
                def go(fail=None):
                    I = R.interp(cparam=N)
                    st = State()
                    o = run(I, mk, [F['key'], F['lp'], F['rp'], F['size']], st)
                    no_panic(o, 'make_key_data')
                    v = o.val if isinstance(o.val, StructV) else StructV(adt, 0, (o.val,))
                    st.mem[('in', 'k')] = v
                    if cond is not None:
                        st.assume(cond)
                    P = Printer(R, I, fail)
                    return I, st, [RefV(('in', 'k')), P.start(st)]
                I, st, a = go()
                o = run(I, b, a, st)
                if tr == 'Debug':
                    want = ['HallKey(key=', V(F['key']), ', lparent=', V(F['lp']), ', rparent=', V(F['rp']), ', size=', V(F['size']), ')']
                elif cond[0] != 'not':
                    want = [V(F['key'])]
                else:
                    want = ['[', V(F['lp']), ', ', V(F['rp']), ']']
                printed(o, st, want, 'a Hall key as printed by %s' % tr)
                broken(None, b, a, go, 'printing a Hall key', writes(o))
        R.decide('%s of Hall keys' % tr, b, 'the four fields by name' if tr == 'Debug' else 'the key of a letter, otherwise the two parents in brackets, left first', ob)
    # dense vectors
    b = m.method('SimpleDenseVector', 'Display', 'fmt')
    if b is None:
        R.missing('SimpleDenseVector: Display', 'printing of dense vectors')
        return
    def ob():
        L = Layout(m)
        for kind in [k for k in ('owned', 'shared', 'mut') if k in L.kinds]:
            for n in widened(R, (0, 1, 2, 3, 5, 9, 17, 40), around):
                def go(fail=None):
                    I = R.interp()
                    I.basis = AbsBasis()
                    st = State()
                    v = L.put(st, seqof('x', lift(n)), kind, 'v')
                    P = Printer(R, I, fail)
                    return I, st, [v, P.start(st)]
                I, st, a = go()
                o = run(I, b, a, st)
                want = []
                for i in range(n):
                    want += [('v', 'Display', app('el', 'x', lift(i))), ('v', 'Display', I.basis.index_to_key(I, st, lift(i)))]
                what = 'a dense vector of %d coefficients as printed' % n
                printed(o, st, want, what)
                if n in (1, 3):
                    broken(None, b, a, go, what, writes(o))
        return 'bounded'
    R.decide('Display of dense vectors', b, 'for every index in order, the coefficient followed by its key, nothing else; a failed write is reported', ob)
