"""C13 tensor words, C14 their numbering, C15 degree blocks. Per alphabet width the words are taken with
symbolic letters (positional digits), for every word length up to the maximum the code allows."""
from ..spec import *
from ..contracts import AbsBasis

WIDTHS = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 2 ** 20, 2 ** 21 - 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
FEW = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 26, 64, 255, 256, 1024,  65535, 2 ** 31, 2 ** 32 - 1]

def letter(n, N):
    return lift(1) if N == 1 else var('%s/%d' % (n, N), 0, N - 1) + 1

def word(n, k, N):
    """k symbolic letters, the first letter first"""
    return [letter('%s%d' % (n, i), N) for i in range(k)]

def index(ls, N):
    r = ZERO
    for l in ls:
        r = r * lift(N) + l
    return r

def start(N, d):
    return sum(N ** i for i in range(d))

class Words:
    """the operations of the word type, found by name"""
    def __init__(self, R):
        self.R, self.m = R, R.mir
        g = lambda n: self.m.inherent('TensorKey', n)
        self.from_letters, self.size, self.get_letter, self.max_depth = g('from_letters'), g('size'), g('get_letter'), g('max_depth')
    def there(self):
        ok = True
        for n in ('from_letters', 'size', 'get_letter', 'max_depth'):
            if getattr(self, n) is None:
                self.R.missing('TensorKey::' + n, 'TensorKey::' + n)
                ok = False
        return ok
    def interp(self, N):
        I = self.R.interp(cparam=lift(N), fuel=2000000)
        I.maxdepth = 400
        return I, State()
    def depth(self, N):
        I, st = self.interp(N)
        o = run(I, self.max_depth, [], st)
        no_panic(o, 'max_depth')
        d = o.val.as_int() if isinstance(o.val, Poly) else None
        if d is None:
            raise Undecided('max_depth is not a constant')
        if d < 1:
            raise Mismatch('no word over %d letters fits: the maximum length is %d' % (N, d))
        return d
    def build(self, I, st, ls):
        loc = ('in', fresh('letters'))
        st.mem[loc] = SeqList(ls)
        o = run(I, self.from_letters, [RefV(loc)], st)
        no_panic(o, 'building a word of %d letters' % len(ls))
        return self.put(st, o.val)
    def put(self, st, v):
        loc = ('in', fresh('key'))
        st.mem[loc] = Md.rd(st, v)
        return RefV(loc)
    def observe(self, I, st, key, ls, what):
        """the word has exactly the letters ls"""
        N = I.cparam.as_int()
        o = run(I, self.size, [key], st)
        no_panic(o, 'size')
        same(o.val, lift(len(ls)), 'the size of ' + what, st)
        for p in range(len(ls)):
            o = run(I, self.get_letter, [key, lift(p)], st)
            no_panic(o, 'get_letter')
            same(o.val, ls[len(ls) - 1 - p], 'the letter at position %d (from the end) of %s over %d letters' % (p, what, N), st)

def sizes(D, R=None, few=False):
    if few and not (R and R.thorough):
        return sorted({0, 1, 2, 3, 4, D // 2, D - 1, D} & set(range(D + 1)))
    return list(range(D + 1))

def C13(R):
    m = R.mir
    W = Words(R)
    if not W.there():
        return
    g = lambda n: m.inherent('TensorKey', n)
    ws = WIDTHS
    def per(name, b, rule, fn):
        if b is None:
            R.missing(name, name)
            return
        def ob():
            each_shape(ws, lambda N: fn(b, N, W.depth(N)), R, around)
            return 'bounded'
        R.decide(name, b, rule + ' (widths %d to %d, every length up to the maximum, all letters)' % (ws[0], ws[-1]), ob, shapes=len(ws))
    def f(b, N, D):
        for k in sizes(D):
            I, st = W.interp(N)
            ls = word('l', k, N)
            W.observe(I, st, W.build(I, st, ls), ls, 'a word of %d letters' % k)
    per('from_letters, size and get_letter', W.from_letters, 'a word built from letters has those letters and that size', f)
    def f(b, N, D):
        for k in (D + 1, D + 2, 2 * D, 64, 65):
            if k <= D:
                continue
            I, st = W.interp(N)
            loc = ('in', 'letters')
            st.mem[loc] = SeqList(word('l', k, N))
            must_panic(run(I, b, [RefV(loc)], st), 'building a word of %d letters over %d letters, where the maximum is %d,' % (k, N, D))
    per('from_letters beyond the maximum', W.from_letters, 'building beyond the maximum length panics', f)
    def f(b, N, D):
        I, st = W.interp(N)
        l = letter('l', N)
        o = run(I, b, [l], st)
        no_panic(o, 'from_letter')
        W.observe(I, st, W.put(st, o.val), [l], 'the word of one letter')
    per('from_letter', g('from_letter'), 'a word built from one letter has that letter', f)
    def f(b, N, D):
        I, st = W.interp(N)
        o = run(I, b, [], st)
        no_panic(o, 'new')
        W.observe(I, st, W.put(st, o.val), [], 'the new word')
    per('new', g('new'), 'a new word is empty', f)
    def f(b, N, D):
        for k in sizes(D - 1):
            I, st = W.interp(N)
            ls, l = word('l', k, N), letter('x', N)
            key = W.build(I, st, ls)
            o = run(I, b, [key, l], st)
            no_panic(o, 'push_front')
            same(o.val, key, 'the reference returned by push_front', st)
            W.observe(I, st, key, [l] + ls, 'a word of %d letters after putting one in front' % k)
    per('push_front', g('push_front'), 'putting a letter in front puts it before the letters there', f)
    def f(b, N, D):
        for i in sizes(D, R, True):
            for j in sorted({0, 1, 2, D - i - 1, D - i} & set(range(D - i + 1))):
                I, st = W.interp(N)
                x, y = word('l', i, N), word('r', j, N)
                p, q = W.build(I, st, x), W.build(I, st, y)
                o = run(I, b, [p, q], st)
                no_panic(o, 'concatenating words of %d and %d letters' % (i, j))
                W.observe(I, st, W.put(st, o.val), x + y, 'the concatenation of words of %d and %d letters' % (i, j))
                W.observe(I, st, p, x, 'the left word after concatenation')
                W.observe(I, st, q, y, 'the right word after concatenation')
    per('concatenate', g('concatenate'), 'the concatenation has the letters of the left word, then those of the right', f)
    def f(b, N, D):
        for i in sizes(D):
            for j in sorted({D - i + 1, D - i + 2, D} & set(range(D + 1))):
                if i + j <= D:
                    continue
                I, st = W.interp(N)
                p, q = W.build(I, st, word('l', i, N)), W.build(I, st, word('r', j, N))
                must_panic(run(I, b, [p, q], st), 'concatenating words of %d and %d letters over %d letters, where the maximum is %d,' % (i, j, N, D))
    per('concatenate beyond the maximum', g('concatenate'), 'concatenating beyond the maximum length panics', f)
    def f(b, N, D):
        for k in sizes(D):
            I, st = W.interp(N)
            ls = word('l', k, N)
            key = W.build(I, st, ls)
            o = run(I, b, [key], st)
            no_panic(o, 'to_letters')
            same(Md.rd(st, o.val), SeqList(ls[::-1]), 'the letters listed (last first)', st)
            W.observe(I, st, key, ls, 'the word after listing its letters')
    per('to_letters', g('to_letters'), 'lists the letters by position, the last letter first', f)
    new, nx = m.inherent('TensorKeyIterator', 'new'), m.method('TensorKeyIterator', 'Iterator', 'next')
    def f(b, N, D):
        for k in sizes(D):
            I, st = W.interp(N)
            ls = word('l', k, N)
            key = W.build(I, st, ls)
            o = run(I, new, [key], st)
            no_panic(o, 'TensorKeyIterator::new')
            it = W.put(st, o.val)
            for l in ls:
                o = run(I, b, [it], st)
                no_panic(o, 'next')
                same(Md.rd(st, o.val), some(l), 'the next letter of a word of %d letters' % k, st)
            for _ in range(2):
                o = run(I, b, [it], st)
                no_panic(o, 'next')
                same(Md.rd(st, o.val), NONE, 'the end of a word of %d letters' % k, st)
    if new is None:
        R.missing('TensorKeyIterator::new', 'TensorKeyIterator::new')
    else:
        per('TensorKeyIterator', nx, 'iterating over a word returns its letters from first to last, then none', f)
        for n, b in own_steps(m, 'TensorKeyIterator'):
            def f(b, N, D, n=n):
                for k in sizes(D, R, True):
                    for c in sorted({0, 1, k // 2, k}):
                        if c > k:
                            continue
                        I, st = W.interp(N)
                        ls = word('l', k, N)
                        o = run(I, new, [W.build(I, st, ls)], st)
                        it = W.put(st, o.val)
                        for _ in range(c):
                            run(I, nx, [it], st)
                        own_step(I, st, it, n, b, nx, ls[c:], lambda s, v, e: same(v, e, 'the letter %s gives' % n, s),
                                 'after %d of %d letters' % (c, k), skips=sorted({0, 1, 2, max(k - c - 1, 0), k - c, k - c + 2}))
            per('TensorKeyIterator::' + n, b, 'an own version of a provided method of Iterator answers as stepping would', f)
    be, bn = m.method('TensorKey', 'PartialEq', 'eq'), m.method('TensorKey', 'PartialEq', 'ne')
    def f(b, N, D):
        for i in sizes(D, R, True):
            for j in sizes(D, R, True):
                I, st = W.interp(N)
                x, y = word('l', i, N), word('r', j, N)
                p, q = W.build(I, st, x), W.build(I, st, y)
                o = run(I, b, [p, q], st)
                no_panic(o, 'eq')
                w = i == j and conj(*[eq(a, c) for a, c in zip(x, y)])
                same(o.val, neg(w) if b is bn else w, 'equality of words of %d and %d letters' % (i, j), st)
    per('TensorKey::eq', be, 'two words are equal exactly when their letters are', f)
    if bn is not None:
        per('TensorKey::ne', bn, 'two words are unequal exactly when their letters differ', f)
    bc = m.method('TensorKey', 'Clone', 'clone')
    def f(b, N, D):
        for k in sizes(D, R, True):
            I, st = W.interp(N)
            ls = word('l', k, N)
            o = run(I, b, [W.build(I, st, ls)], st)
            no_panic(o, 'clone')
            W.observe(I, st, W.put(st, o.val), ls, 'the copy of a word of %d letters' % k)
    per('TensorKey::clone', bc, 'a copy has the same letters', f)

def own_steps(m, ty):
    """the provided methods of Iterator that a type defines itself"""
    return [(b['name'], b) for b in m.roots if (b.get('impl_trait') or '').split('::')[-1] == 'Iterator' and b.get('impl_self')
            and tyname(b['impl_self']) == ty and b.get('name') != 'next']

def own_step(I, st, it, n, b, nx, rest, seen, what, total=None, skips=(0, 1, 2, 3)):
    """the iterator (which has exactly rest left; or, of total left, rest come first) answers as stepping with next would;
    seen(state, value, item): the value is the item"""
    whole = total is None
    total = len(rest) if whole else total
    def option(s, v, e, w):
        v = Md.rd(s, v)
        if isinstance(v, IteV) or not (isinstance(v, StructV) and v.tag == OPTION):
            raise Undecided('%s: an option is expected, got %r' % (w, v))
        if (v.variant == 1) != (e is not None):
            raise Mismatch('%s is %s' % (w, 'none' if e is not None else 'there, though there is none'))
        if e is not None:
            seen(s, v.fields[0], e)
    if n == 'nth':
        for j in skips:
            if not whole and j + 1 >= len(rest):
                continue
            s = st.copy()
            o = run(I, b, [it, lift(j)], s)
            no_panic(o, 'nth')
            option(s, o.val, rest[j] if j < len(rest) else None, 'nth(%d) %s' % (j, what))
            o = run(I, nx, [it], s)
            no_panic(o, 'next')
            option(s, o.val, rest[j + 1] if j + 1 < len(rest) else None, 'what follows nth(%d) %s' % (j, what))
    elif n in ('count', 'last'):
        if n == 'last' and not whole or total >= 2 ** 64:
            return
        s = st.copy()
        o = run(I, b, [s.read(it)], s)
        no_panic(o, n)
        if n == 'count':
            same_num(Md.rd(s, o.val), lift(total), 'the count %s' % what, facts_of(s))
        else:
            option(s, o.val, rest[-1] if rest else None, 'the last %s' % what)
    elif n == 'size_hint':
        s = st.copy()
        o = run(I, b, [it], s)
        no_panic(o, n)
        v = Md.rd(s, o.val)
        if not (isinstance(v, StructV) and len(v.fields) == 2):
            raise Undecided('size_hint')
        same_num(leq(v.fields[0], total), True, 'whether the least count of size_hint %s is right' % what, facts_of(s))
        hi = v.fields[1]
        c = Md.gate(s, hi, lambda h: True if h.variant == 0 else leq(total, h.fields[0]))
        same_num(c, True, 'whether the greatest count of size_hint %s is right' % what, facts_of(s))
    else:
        raise Undecided('an own version of Iterator::%s' % n)

# ------------------------------------------------------------------ numbering
def C14(R):
    m = R.mir
    W = Words(R)
    if not W.there():
        return
    t = lambda n: m.method('TensorBasis', 'OrderedBasis', n)
    def per(name, b, rule, fn, ws=WIDTHS, opt=False):
        if b is None:
            R.missing(name, name)
            return
        def ob():
            each_shape(ws, lambda N: fn(b, N, W.depth(N)), R, around)
            return 'bounded'
        R.decide(name, b, rule + ' (widths %d to %d, every length up to the maximum, all letters)' % (ws[0], ws[-1]), ob, shapes=len(ws))
    def f(b, N, D):
        for k in sizes(D):
            I, st = W.interp(N)
            ls = word('l', k, N)
            key = W.build(I, st, ls)
            o = run(I, b, [key], st)
            no_panic(o, 'key_to_index')
            same(o.val, index(ls, N), 'the index of a word of %d letters over %d letters' % (k, N), st)
            W.observe(I, st, key, ls, 'the word after taking its index')
    per('key_to_index', t('key_to_index'), 'the index of a word is the number of words before it, by length and then in order', f)
    def f(b, N, D):
        for k in sizes(D):
            I, st = W.interp(N)
            ls = word('l', k, N)
            o = run(I, b, [index(ls, N)], st)
            no_panic(o, 'index_to_key')
            W.observe(I, st, W.put(st, o.val), ls, 'the word with the index of a word of %d letters' % k)
    per('index_to_key', t('index_to_key'), 'the word of an index is the word that has this index', f)
    def compared(b, N, x, y, w, facts=()):
        """comparing the words x and y gives: less under w[0], equal under w[1], else greater"""
        I, st = W.interp(N)
        for c in facts:
            st.assume(c)
        p, q = W.build(I, st, x), W.build(I, st, y)
        o = run(I, b, [p, q], st)
        no_panic(o, 'compare')
        v = Md.rd(st, o.val)
        for n in range(2):         # an ordering that is neither is greater
            same_num(Md.ord_is(st, v, n), w[n], 'whether a word of %d letters compares %s to one of %d over %d letters' % (len(x), ('less', 'equal', 'greater')[n], len(y), N), facts_of(st))
    def first_difference(b, N, k):
        """the cases by the first place where two words of k letters differ, and how"""
        x = word('l', k, N)
        compared(b, N, x, x, (False, True))
        for p in range(k) if N > 1 else ():
            a = word('l', k, N)
            c = x[:p] + word('r', k, N)[p:]
            compared(b, N, a, c, (True, False), [lt(a[p], c[p])])
            compared(b, N, c, a, (False, False), [lt(a[p], c[p])])
    def f(b, N, D):
        for i in sizes(D, R, True):
            for j in sizes(D, R, True):
                x, y = word('l', i, N), word('r', j, N)
                if i != j:
                    compared(b, N, x, y, (i < j, False))
                    continue
                a, c = index(x, N), index(y, N)
                if i > 4:
                    try:
                        first_difference(b, N, i)
                        continue
                    except Undecided:
                        pass
                compared(b, N, x, y, (lt(a, c), eq(a, c)))
    per('compare', t('compare'), 'comparing two words agrees with comparing their indices', f, FEW if not R.thorough else WIDTHS)
    # iteration
    nx = m.method('TensorBasisIterator', 'Iterator', 'next')
    frm, new, ik = m.inherent('TensorBasisIterator', 'starting_from'), m.inherent('TensorBasisIterator', 'new'), t('iter_keys')
    def succ(ls, N, D):
        """(letters of the next word, or None), for letters whose trailing ones are known"""
        ls = list(ls)
        i = len(ls) - 1
        while i >= 0:
            if ls[i].as_int() == N:
                ls[i] = ONE
                i -= 1
                continue
            ls[i] = ls[i] + 1
            return ls
        return [ONE] + ls if len(ls) < D else None
    def step(I, st, it, ls, nxt, what):
        """next yields ls, and the iterator then stands at nxt"""
        for e in (ls, nxt):
            o = run(I, nx, [it], st)
            no_panic(o, 'next')
            v = Md.rd(st, o.val)
            if e is None:
                same(v, NONE, 'the end of the iteration after %s' % what, st)
                return
            if isinstance(v, IteV):
                raise Undecided('the next word is not decided')
            if not (isinstance(v, StructV) and v.tag == OPTION):
                raise Undecided('a word is expected, got %r' % (v,))
            if v.variant == 0:
                raise Mismatch('the iteration ends before %s' % what)
            W.observe(I, st, W.put(st, v.fields[0]), e, 'the word yielded (%s)' % what)
    def f(b, N, D):
        for k in sizes(D, R, N > 4):
            carries = range(k + 1) if k <= 8 or R.thorough else sorted({0, 1, 2, k // 2, k - 1, k})
            if N == 1:
                carries = [k]
            for j in carries:
                # the last j letters are the greatest, the one before is not
                I, st = W.interp(N)
                ls = word('l', k, N)
                for i in range(j):
                    ls[k - 1 - i] = lift(N)
                if j < k:
                    ls[k - 1 - j] = var('c/%d' % N, 0, N - 2) + 1 if N > 2 else ONE
                key = W.build(I, st, ls)
                o = run(I, frm, [st.read(key)], st)
                no_panic(o, 'starting_from')
                it = W.put(st, o.val)
                nw = succ(ls, N, D)
                what = 'starting from a word of %d letters over %d letters that ends in %d greatest letters' % (k, N, j)
                if nw is not None and len(nw) <= D:
                    # by induction: after one step the iterator is as one started from the next word
                    o = run(I, frm, [st.read(W.build(I, st, nw))], st)
                    want = Md.rd(st, o.val)
                    s2 = st.copy()
                    o = run(I, nx, [it], s2)
                    no_panic(o, 'next')
                    v = Md.rd(s2, o.val)
                    if isinstance(v, StructV) and v.tag == OPTION and v.variant == 1:
                        W.observe(I, s2, W.put(s2, v.fields[0]), ls, 'the word yielded (%s)' % what)
                    try:
                        same(v, some(st.read(key)), '', s2)
                        same(s2.read(it), want, '', s2)
                        continue
                    except (Mismatch, Undecided):
                        pass
                step(I, st, it, ls, nw, 'starting from a word of %d letters over %d letters that ends in %d greatest letters' % (k, N, j))
    if frm is None:
        R.missing('TensorBasisIterator::starting_from', 'starting_from')
    else:
        for n, b in own_steps(m, 'TensorBasisIterator') if nx else ():
            def f2(b, N, D, n=n):
                last = [lift(N)] * D
                first = [[], [ONE]] + ([[ONE, ONE]] if N == 1 and D > 1 else [[lift(2)], [lift(3)] if N > 2 else [ONE, ONE]] if N > 1 else [])
                ends = [[last[:-1] + [lift(N - i)] for i in range(j, -1, -1)] for j in range(min(3, N))]
                # near the end, and at the start (where the words that follow are only listed in part)
                for rest, total in [(e, None) for e in ends] + [(first, sum(N ** d for d in range(D + 1)))]:
                    I, st = W.interp(N)
                    o = run(I, frm, [st.read(W.build(I, st, rest[0]))], st)
                    it = W.put(st, o.val)
                    own_step(I, st, it, n, b, nx, rest, lambda s, v, e: W.observe(I, s, W.put(s, v), e, 'the word %s gives' % n),
                             'with %s words over %d letters left' % (total or len(rest), N), total)
                    if total is None:
                        for _ in rest:
                            run(I, nx, [it], st)
                        own_step(I, st, it, n, b, nx, [], lambda s, v, e: None, 'of an iterator that has ended')
            per('TensorBasisIterator::' + n, b, 'an own version of a provided method of Iterator answers as stepping would', f2, FEW)
        per('next after starting_from', nx, 'yields the word started from, then the one with the next index; ends after the last word of maximum length', f, FEW + [10, 17, 33])
    def f(b, N, D):
        for mk in (new, ik):
            I, st = W.interp(N)
            o = run(I, mk, [], st)
            no_panic(o, 'the iteration')
            it = W.put(st, o.val)
            ls = []
            for n in range(min(60, start(N, D + 1))):
                o = run(I, nx, [it], st)
                no_panic(o, 'next')
                v = Md.rd(st, o.val)
                if not (isinstance(v, StructV) and v.tag == OPTION):
                    raise Undecided('a word is expected, got %r' % (v,))
                if v.variant == 0:
                    raise Mismatch('the iteration over the words over %d letters ends after %d words' % (N, n))
                W.observe(I, st, W.put(st, v.fields[0]), ls, 'word %d of the iteration from the start' % n)
                ls = succ(ls, N, D)
            if ls is None:
                o = run(I, nx, [it], st)
                no_panic(o, 'next')
                same(Md.rd(st, o.val), NONE, 'the end of the iteration', st)
    if new is None or ik is None:
        R.missing('iter_keys', 'iterating over all words')
    else:
        per('iter_keys', nx, 'from the start, the words are yielded in the order of their indices', f, [1, 2, 3, 4, 5, 8, 16, 100])

# ------------------------------------------------------------------ degree blocks
def C15(R):
    m = R.mir
    W = Words(R)
    if not W.there():
        return
    ih = lambda n: m.inherent('TensorBasis', n)
    t = lambda tr, n: m.method('TensorBasis', tr, n)
    def top(N, D):
        """degrees whose block (and the powers that bound it) fit the index type"""
        d = 0
        while d < D and (N == 1 or N ** (d + 1) < 2 ** 64):
            d += 1
        return d
    def per(name, b, rule, fn, need=True):
        if b is None:
            if need:
                R.missing(name, name)
            return
        def ob():
            def one(N):
                D = W.depth(N)
                fn(b, N, top(N, D), D)
            each_shape(WIDTHS, one, R, around)
            return 'bounded'
        R.decide(name, b, rule + ' (widths %d to %d, every degree up to the maximum, all indices and letters)' % (WIDTHS[0], WIDTHS[-1]), ob, shapes=len(WIDTHS))
    def f(b, N, T, D):
        I, st = W.interp(N)
        o = run(I, b, [], st)
        no_panic(o, 'max_degree')
        same(o.val, lift(D), 'the maximum degree over %d letters' % N, st)
    per('TensorBasis::max_degree', ih('max_degree'), 'the maximum degree is the maximum length of a word', f)
    def f(b, N, T, D):
        for d in range(T + 1):
            I, st = W.interp(N)
            o = run(I, b, [lift(d)], st)
            no_panic(o, 'start_of_degree(%d) over %d letters' % (d, N))
            same(o.val, lift(start(N, d)), 'the start of degree %d over %d letters' % (d, N), st)
    per('TensorBasis::start_of_degree', ih('start_of_degree'), 'the block of a degree starts at the number of shorter words', f, False)
    per('OrderedBasisWithDegree::start_of_degree', t('OrderedBasisWithDegree', 'start_of_degree'), 'the block of a degree starts at the number of shorter words', f)
    def f(b, N, T, D):
        for d in range(T):
            I, st = W.interp(N)
            o = run(I, b, [lift(d)], st)
            no_panic(o, 'degree_range')
            v = Md.rd(st, o.val)
            if not (isinstance(v, StructV) and len(v.fields) >= 2):
                raise Undecided('a range is expected, got %r' % (v,))
            same(v.fields[0], lift(start(N, d)), 'the start of the block of degree %d over %d letters' % (d, N), st)
            same(v.fields[1], lift(start(N, d + 1)), 'the end of the block of degree %d over %d letters' % (d, N), st)
    per('TensorBasis::degree_range', ih('degree_range'), 'the blocks are consecutive', f, False)
    def blocks(N, T):
        for d in range(T):
            lo, hi = start(N, d), start(N, d + 1) - 1
            yield d, lift(lo) if lo == hi else var('i%d_%d' % (N, d), lo, hi)
    def f(b, N, T, D):
        for d, i in blocks(N, T):
            I, st = W.interp(N)
            a = i
            if b['argc'] == 1 and b['locals'][1]['k'] == 'ref':
                st.mem[('in', 'i')] = i
                a = RefV(('in', 'i'))
            o = run(I, b, [a], st)
            no_panic(o, 'index_to_degree')
            same(o.val, lift(d), 'the degree of an index in the block of degree %d over %d letters' % (d, N), st)
    per('TensorBasis::index_to_degree', ih('index_to_degree'), 'the degree of an index is the degree whose block it lies in', f, False)
    per('OrderedBasisWithDegree::index_to_degree', t('OrderedBasisWithDegree', 'index_to_degree'), 'the degree of an index is the degree whose block it lies in', f)
    def f(b, N, T, D):
        for d, i in blocks(N, T):
            I, st = W.interp(N)
            o = run(I, b, [i], st)
            no_panic(o, 'vector_dimension_for_index')
            same(o.val, lift(start(N, d + 1)), 'the dimension for an index in the block of degree %d over %d letters' % (d, N), st)
    per('vector_dimension_for_index', t('OrderedBasis', 'vector_dimension_for_index'), 'complete up to the degree of the index', f)
    def f(b, N, T, D):
        for d in range(min(T, D + 1)):
            I, st = W.interp(N)
            o = run(I, b, [W.build(I, st, word('l', d, N))], st)
            no_panic(o, 'vector_dimension_for_key')
            same(o.val, lift(start(N, d + 1)), 'the dimension for a word of %d letters over %d letters' % (d, N), st)
    per('vector_dimension_for_key', t('OrderedBasis', 'vector_dimension_for_key'), 'complete up to the degree of the word', f)
    def f(b, N, T, D):
        for d in range(D + 1):
            I, st = W.interp(N)
            o = run(I, b, [W.build(I, st, word('l', d, N))], st)
            no_panic(o, 'degree')
            same(o.val, lift(d), 'the degree of a word of %d letters over %d letters' % (d, N), st)
    per('BasisWithDegree::degree', t('BasisWithDegree', 'degree'), 'the degree of a word is its number of letters', f)
    # dense vectors: the degree of the last stored coefficient
    from . import dense
    L = dense.layout(R)
    b = m.method('SimpleDenseVector', 'VectorWithDegree', 'degree')
    if b is None:
        R.missing('SimpleDenseVector::degree', 'VectorWithDegree for SimpleDenseVector')
    elif L is not None:
        dg = lambda i: app('ideg', i, rng=(0, None))
        for kind in L.kinds:
            def ob(kind=kind):
                for n in (ZERO, var('n', 1, None)):
                    I, st = R.interp(param=True), State()
                    I.basis = AbsBasis()
                    sa = dense.seqof('a', n)
                    a = L.put(st, sa, kind, 'a')
                    o = run(I, b, [a], st)
                    no_panic(o, 'degree')
                    same(o.val, ZERO if n is ZERO else dg(n - 1), 'the degree of a vector of %s coefficients' % show(n), st)
                    same(L.coeffs(st, a), sa, 'the vector after degree', st)
            R.decide('SimpleDenseVector::degree [%s]' % kind, b, 'the degree of a dense vector is the degree of its last index (zero when it is empty)', ob)
