#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough]: decides the property from /repo's current source.
Exit 0: it holds on everything analysed; 1: violated (a VIOLATION line); 2: no answer."""
import sys, os, json, time, importlib, threading, traceback, ctypes
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.terms import deadline, OutOfTime

PROPS = {
    'C25': [('printing', 'C25')], 'C26': [('fits', 'C26')],
    'C01': [('safety', 'C01')], 'C21': [('dense', 'C21d'), ('sparse', 'C21s'), ('wrappers', 'C21w')],
    'C10': [('product', 'C10')], 'C12': [('series', 'C12')], 'C13': [('words', 'C13')], 'C14': [('words', 'C14')], 'C15': [('words', 'C15')],
    'C02': [('coeff', 'C02')], 'C03': [('derived', 'C03')], 'C04': [('derived', 'C04')],
    'C05': [('dense', 'C05')], 'C06': [('dense', 'C06')], 'C07': [('sparse', 'C07')], 'C08': [('sparse', 'C08')],
    'C09': [('wrappers', 'C09')], 'C11': [('derived', 'C11')], 'C16': [('hall', 'C16')], 'C17': [('hall', 'C17')], 'C18': [('locks', 'C18')], 'C19': [('totality', 'C19')], 'C20': [('hall', 'C20')],
}
TRUSTED = [
    'rustc (nightly): type checking, method resolution and MIR construction of the crate under analysis',
    'the models of the standard library items the code uses (sa/models.py): Vec, slices, iterators, Option, HashMap, Mutex, RwLock, integers',
    'exact field arithmetic for coefficients (rounding is not modelled)',
    'user-written bases, coefficient types and vectors obey the contracts their traits state (sa/contracts.py)',
    'the term normaliser and loop summaries of sa/',
]

def known(pid):
    """[(text after the id, pattern)] of the recorded findings of this property"""
    out = []
    p = os.path.join(HERE, 'KNOWN-FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out

def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    from sa import mir, spec
    try:
        m = mir.load()
    except mir.BuildError as e:
        print('NO ANSWER: %s' % e)
        return 2
    R = spec.Rec(pid, m)
    R.thorough = thorough
    R.budget = 14400 if thorough else 600
    R.t0 = t0
    running.append((R, t0 + (15000 if thorough else 760), lambda: report(R, m, pid, thorough, t0)))
    for mod, fn in PROPS[pid]:
        try:
            getattr(importlib.import_module('sa.props.' + mod), fn)(R)
        except spec.Undecided as e:
            R.undecided(mod + '.' + fn, str(e))
        except Exception as e:
            R.undecided(mod + '.' + fn, 'error in the analysis: %s' % traceback.format_exc(limit=-3))
    return report(R, m, pid, thorough, t0)

running = []        # (the record, the latest time at which it is reported as it stands, how)

def report(R, m, pid, thorough, t0):
    running.clear()
    kf = known(pid)
    viol, hits = [], []
    for o in R.obs:
        if o['verdict'] != 'violated':
            continue
        k = next((x for x in kf if x[0] == (o.get('key') or o['name'])), None)
        if k:
            o['verdict'] = 'known-finding'
            hits.append(k)
        else:
            viol.append(o)
    for k in hits:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k[0], k[1]))
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    fns = sorted({f if isinstance(f, str) else m.bodies[f]['p'] for f in R.fns})
    n = {v: R.count(v) for v in ('proved', 'bounded', 'undecided', 'violated', 'known-finding')}
    trusted = getattr(R, 'trusted', TRUSTED)
    cov = dict(
        explanation=R.method % (len(R.obs), n['proved'], n['undecided'], n['violated']) if getattr(R, 'method', None) else 'Abstract interpretation of the compiled crate\'s MIR (never executed): %d obligations over %d functions, %d call sites and loads analysed; '
                    '%d discharged for every shape and value, %d for every value on the listed shapes, %d undecided, %d violated, %d known findings.'
                    % (len(R.obs), len(fns), R.sites, n['proved'], n['bounded'], n['undecided'], n['violated'], n['known-finding']),
        obligations=len(R.obs), discharged=n['proved'] + n['bounded'], proved_for_all=n['proved'], bounded_shapes=n['bounded'],
        undecided=n['undecided'], checker_cmd='python3 check.py %s%s' % (pid, ' --thorough' if thorough else ''), trusted_base=trusted,
        functions=fns[:400], analysed_sites=R.sites, details=R.obs, notes=R.notes[:200])
    json.dump(dict(property=pid, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
                   coverage=cov, assumptions=trusted, wall_s=round(time.time() - t0, 2), violations=len(viol)),
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %s; %.1f s' % (pid, ', '.join('%d %s' % (c, v) for v, c in n.items() if c), time.time() - t0))
    if viol:
        rp = os.path.join(ev, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in viol:
                f.write('%s\n  in %s (%s:%s)\n  rule: %s\n  %s\n\n' % (o['name'], o['fn'], o['file'], o['line'], o['rule'], o.get('detail', '')))
                print('  %s: %s (%s:%s): %s' % (pid, o['name'], o['file'], o['line'], o.get('detail', '')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    threading.stack_size(512 << 20)
    res = []
    def go():
        try:
            res.append(main())
        except BaseException:
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=go)
    t.start()
    while t.is_alive():
        t.join(1)
        # an obligation that does not notice its time limit is given up from outside, repeatedly: the first attempt
        # can be swallowed by code that tries something else when one way of deciding does not work out
        d = deadline[0]
        if d is not None and time.time() > d + 20 and not res:
            deadline[0] = time.time()
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
        # and the whole check reports what it has in time, whatever it is doing
        if running and time.time() > running[0][1]:
            R, _, rep = running[0]
            R.undecided('the rest', 'the time for this check is used up')
            res.append(rep())
            break
    sys.stdout.flush()
    os._exit(res[0])
