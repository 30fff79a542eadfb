"""C26: the programs the published interfaces promise to accept type-check, and those they promise to refuse do not.
The witnesses (witness/) are never run: the type checker decides them, for all the types their generic functions
quantify over, against the library in /repo's working tree."""
import json, os, re, shutil, subprocess, tempfile
from .. import mir
from ..spec import clip

W = os.path.join(mir.HERE, 'witness')
RULE = 'the generic witness program type-checks against the library'
NORULE = 'the witness program is refused by the type checker'

def env(work):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTC_WORKSPACE_WRAPPER', None)
    e['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
    return e

def modules(src):
    """[(name, what it says, first line, last line)] of the witness modules"""
    out, doc = [], []
    for i, l in enumerate(src.splitlines(), 1):
        m = re.match(r'mod (\w+) \{', l)
        if l.startswith('/// '):
            doc.append(l[4:])
        elif m:
            out.append([m.group(1), ' '.join(doc), i, i])
            doc = []
        if l == '}' and out:
            out[-1][3] = i
    return [tuple(x) for x in out]

def spans(msg):
    yield from msg.get('spans', ())
    for c in msg.get('children', ()):
        yield from spans(c)

def C26(R):
    R.method = ('Witness programs given to the type checker with the library\'s current source (nothing is run): %d obligations; %d hold for all the types '
                'and alphabets the witness quantifies over, %d undecided, %d violated.')
    R.trusted = ['rustc: type, trait and borrow checking']
    work = tempfile.mkdtemp(prefix='rustyalgebra-fits-')
    try:
        decide(R, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(R, work):
    repo = os.path.abspath(mir.REPO)
    src = open(os.path.join(W, 'fits.rs')).read()
    crate = os.path.join(work, 'fits')
    os.makedirs(os.path.join(crate, 'src'))
    open(os.path.join(crate, 'src', 'lib.rs'), 'w').write(src)
    open(os.path.join(crate, 'Cargo.toml'), 'w').write(
        '[package]\nname = "fits"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nrustyalgebra = { path = "%s" }\n[workspace]\n' % repo)
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '-q'], cwd=crate, env=env(work), capture_output=True, text=True)
    msgs = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
    lib = next((f for m in msgs if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'rustyalgebra'
                for f in m['filenames'] if f.endswith('.rmeta')), None)
    if lib is None:
        R.undecided('witnesses', 'the library was not compiled for them: ' + clip(r.stderr, 800))
        return
    bad = {}        # witness -> [(code, message, where in the library)]
    other = []
    mods = [x for x in modules(src) if x[1]]
    for m in msgs:
        if m.get('reason') != 'compiler-message' or m['target']['name'] != 'fits' or m['message']['level'] != 'error':
            continue
        msg = m['message']
        code = (msg.get('code') or {}).get('code')
        ps = [s for s in msg.get('spans', ()) if s['file_name'].endswith('src/lib.rs') and s['is_primary']]
        if not ps:
            continue
        inlib = [s for s in spans(msg) if os.path.abspath(os.path.join(crate, s['file_name'])).startswith(repo + os.sep)]
        w = next((x[0] for s in ps for x in mods if x[2] <= s['line_start'] <= x[3]), None)
        if w is None:
            other.append(msg['message'])
        else:
            bad.setdefault(w, []).append((code, msg['message'], inlib[0] if inlib else None, ps[0]))
    if r.returncode and not bad:
        R.undecided('witnesses', clip('; '.join(other) or r.stderr, 800))
        return
    # a new obligation on those who implement an interface is no change of what it promises to its users
    harmless = {'E0046'}
    broken = bool(other) or any(c not in harmless for x in bad.values() for c, *_ in x)
    for name, doc, lo, hi in mods:
        o = dict(name='%s: %s' % (name, doc), fn='witness/fits.rs mod %s' % name, file='witness/fits.rs', line=lo, rule=RULE, verdict='proved')
        errs = [x for x in bad.get(name, ()) if x[0] not in harmless]
        R.sites += src.splitlines()[lo - 1:hi].__len__()
        if errs:
            code, text, at, p = errs[0]
            o['verdict'] = 'violated'
            if at:
                o['file'], o['line'] = os.path.relpath(os.path.abspath(os.path.join(crate, at['file_name'])), repo), at['line_start']
            o['detail'] = clip('refused: %s %s (%s)' % (code, text, p['text'][0]['text'].strip() if p.get('text') else ''), 700)
        elif name in bad:
            o['verdict'], o['detail'] = 'undecided', 'the interface asks more of its implementors: ' + bad[name][0][1]
        elif bad and broken:
            # the type checker may stop before it reaches the others
            o['verdict'], o['detail'] = 'undecided', 'not reached'
        R.obs.append(o)
    refused(R, work, lib)

def refused(R, work, lib):
    deps = os.path.dirname(lib)
    d = os.path.join(W, 'refused')
    jobs = []
    for f in sorted(os.listdir(d)):
        text = open(os.path.join(d, f)).read()
        code = re.search(r'refused: (E\d+)', text).group(1)
        doc = text.splitlines()[1][3:]
        p = subprocess.Popen(['rustc', '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json', '-Awarnings',
                              '--extern', 'rustyalgebra=' + lib, '-L', 'dependency=' + deps, '-o', os.path.join(work, f + '.rmeta'), os.path.join(d, f)],
                             env=env(work), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=work)
        jobs.append((f, doc, code, p))
    for f, doc, code, p in jobs:
        err = p.communicate()[1]
        errs = []
        for l in err.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('level') == 'error' and m.get('code'):
                    errs.append((m['code']['code'], m['message']))
        o = dict(name='%s: %s' % (f[:-3], doc), fn='witness/refused/' + f, file='witness/refused/' + f, line=1, rule=NORULE, verdict='proved')
        R.sites += 1
        if p.returncode == 0:
            o['verdict'], o['detail'] = 'violated', 'the program is accepted: %s' % doc
        elif not errs or any(c != code for c, _ in errs):
            o['verdict'], o['detail'] = 'undecided', 'refused for another reason: %s' % clip(repr(errs[:2] or err), 500)
        R.obs.append(o)
