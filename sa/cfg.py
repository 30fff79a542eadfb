"""Control-flow facts of one MIR body: post-dominators, natural loops."""

def succs(t):
    k = t['k']
    if k == 'goto' or k == 'drop' or k == 'assert':
        return [t['t']] if t.get('t') is not None else []
    if k == 'switch':
        out = []
        for _, b in t['vals']:
            if b not in out:
                out.append(b)
        if t['else'] is not None and t['else'] not in out:
            out.append(t['else'])
        return out
    if k == 'call':
        return [t['t']] if t.get('t') is not None else []
    if k == 'return':
        return ['RET']
    return []

class Cfg:
    def __init__(self, body):
        self.n = len(body['blocks'])
        self.succ = {}
        for i, b in enumerate(body['blocks']):
            if b['cleanup']:
                continue
            self.succ[i] = succs(b['t'])
        # blocks from which RET is reachable
        pred = {}
        for a, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, []).append(a)
        self.pred = pred
        live = {'RET'}
        work = ['RET']
        while work:
            x = work.pop()
            for p in pred.get(x, []):
                if p not in live:
                    live.add(p)
                    work.append(p)
        self.live = live
        # reachable from entry
        reach = {0}
        work = [0]
        while work:
            x = work.pop()
            for s in self.succ.get(x, []):
                if s not in reach:
                    reach.add(s)
                    work.append(s)
        self.reach = reach
        nodes = [x for x in reach if x in live]
        self.ipdom = postdom({a: [s for s in self.succ.get(a, []) if s in live] for a in nodes if a != 'RET'}, 'RET')
        self.pdom_sets = self._sets(nodes)
        self.loops = self._loops()

    def _sets(self, nodes):
        out = {}
        for a in nodes:
            chain = []
            x = a
            while x is not None:
                chain.append(x)
                x = self.ipdom.get(x)
            out[a] = chain
        return out

    def common_pdom(self, xs):
        """nearest common post-dominator (a node counts as its own)"""
        xs = [x for x in xs if x in self.live]
        if not xs:
            return None
        chain = self.pdom_sets[xs[0]] if xs[0] != 'RET' else ['RET']
        for c in chain:
            if all(c in (self.pdom_sets[x] if x != 'RET' else ['RET']) for x in xs):
                return c
        return 'RET'

    def _loops(self):
        # back edges by DFS dominators (simple iterative dominator sets; bodies are small)
        order = [x for x in self.reach if x != 'RET']
        dom = {x: set(order) for x in order}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for x in order:
                if x == 0:
                    continue
                ps = [p for p in self.pred.get(x, []) if p in dom]
                if not ps:
                    continue
                d = set.intersection(*[dom[p] for p in ps]) | {x}
                if d != dom[x]:
                    dom[x] = d
                    changed = True
        self.dom = dom
        loops = {}
        for a in order:
            for s in self.succ.get(a, []):
                if s != 'RET' and s in dom[a]:
                    body = loops.setdefault(s, {s})
                    work = [a]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in self.pred.get(x, []) if p in self.reach)
        return loops

def postdom(succ, end):
    """immediate post-dominators of a graph {node: successors}; every node reaches end"""
    nodes = list(succ)
    full = set(nodes) | {end}
    pd = {x: set(full) for x in nodes}
    pd[end] = {end}
    changed = True
    while changed:
        changed = False
        for x in nodes:
            ss = [s for s in succ[x] if s in pd]
            if not ss:
                continue
            d = set.intersection(*[pd[s] for s in ss]) | {x}
            if d != pd[x]:
                pd[x] = d
                changed = True
    out = {}
    for x in nodes:
        cands = pd[x] - {x}
        best = None
        for c in cands:
            # the immediate one is post-dominated by all the others
            if all(o == c or o in pd[c] for o in cands):
                best = c
                break
        out[x] = best
    out[end] = None
    return out
