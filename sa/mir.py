"""Builds the compiler driver when needed, dumps the MIR of /repo's current library, and indexes it."""
import json, os, subprocess, shutil, tempfile, hashlib, re
from .cfg import Cfg

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TC = 'nightly-x86_64-unknown-linux-gnu'
ALLOW = 'core::option::,core::result::,core::cmp::,core::ops::function,core::convert::'
RUSTC_ARGS = '-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Zalways-encode-mir -Awarnings --cap-lints=allow'

class BuildError(Exception):
    pass

def _env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TC
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = sysroot + '/lib'
    return e

def driver():
    """path of the compiled driver"""
    src = os.path.join(HERE, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(HERE, 'build')
    out = os.path.join(d, 'mirdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='drv', dir=d)
    try:
        r = subprocess.run(['rustc', '-O', src, '-o', os.path.join(tmp, 'drv')], env=_env(), capture_output=True, text=True, cwd=tmp)
        if r.returncode:
            raise BuildError('driver does not build:\n' + r.stderr[-3000:])
        os.replace(os.path.join(tmp, 'drv'), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

def dump(repo=None):
    """the MIR of the library in repo's working tree"""
    repo = repo or REPO
    drv = driver()
    work = tempfile.mkdtemp(prefix='rustyalgebra-mir-')
    try:
        e = _env()
        out = os.path.join(work, 'mir.json')
        e.update(VERIF_MIR_OUT=out, VERIF_CRATE='rustyalgebra', VERIF_ALLOW=ALLOW, VERIF_RUSTC_ARGS=RUSTC_ARGS,
                 RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(work, 'target'))
        e.pop('RUSTFLAGS', None)
        lock = os.path.join(repo, 'Cargo.lock')
        had = os.path.exists(lock)
        try:
            r = subprocess.run(['cargo', 'check', '--lib', '--offline', '--manifest-path', os.path.join(repo, 'Cargo.toml')],
                               env=e, capture_output=True, text=True, cwd=work)
        finally:
            if not had and os.path.exists(lock):
                os.remove(lock)
        if not os.path.exists(out):
            raise BuildError('the library does not compile:\n' + r.stderr[-3000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)

class Mir:
    def __init__(self, d):
        self.d = d
        self.bodies = {b['id']: b for b in d['bodies']}
        self.adts = {a['p']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['p']: t for t in d['traits']}
        self._cfg = {}
        self._clo = {}
        for b in d['bodies']:
            if b['kind'] == 'Closure':
                self._clo.setdefault(b['p'], b)
        self.roots = [self.bodies[i] for i in d['roots'] if i in self.bodies]

    def cfg(self, body):
        i = body['id']
        if i not in self._cfg:
            self._cfg[i] = Cfg(body)
        return self._cfg[i]

    def constants(self, body):
        """the integer constants that occur in the function (and powers of two it shifts by)"""
        c = body.get('_consts')
        if c is None:
            c = body['_consts'] = set()
            def val(x):
                if isinstance(x, dict) and x.get('k') == 'const':
                    x = x['c']
                    bits = x.get('bits') or (x.get('c') or {}).get('v')
                    if bits is not None and (x.get('t') or {}).get('k') == 'int':
                        return int(bits)
                return None
            def walk(x):
                if isinstance(x, dict):
                    v = val(x)
                    if v is not None:
                        c.add(v)
                    if x.get('k') == 'bin' and str(x.get('op', '')).startswith('Sh'):
                        for y in x.values():
                            v = val(y)
                            if v is not None and v < 16:
                                c.add(1 << v)
                    if x.get('k') == 'switch':
                        c.update(int(v) for v, _ in x['vals'])
                    for k, y in x.items():
                        if k not in ('t', 'ty', 'f', 'line'):
                            walk(y)
                        elif isinstance(y, (dict, list)) and k != 'f':
                            walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(body['blocks'])
        return c

    def closure_by_path(self, p):
        return self._clo.get(p)

    # ---- finding functions
    def find(self, pred):
        return [b for b in self.roots if pred(b)]

    def fn(self, path):
        """root body with this path (exact) """
        for b in self.roots:
            if b['p'] == path:
                return b
        return None

    def inherent(self, adt, name):
        """inherent method `name` of the type whose path ends with adt"""
        r = []
        for b in self.roots:
            s = b.get('impl_self')
            if s and not b.get('impl_trait') and b.get('name') == name and s.get('k') == 'adt' and s['p'].split('::')[-1] == adt:
                r.append(b)
        return r[0] if r else None

    def method(self, adt, trait, name):
        """method of an impl of the trait for the type (last path segments)"""
        for b in self.roots:
            s = b.get('impl_self')
            if s and b.get('impl_trait') and b['impl_trait'].split('::')[-1] == trait and b.get('name') == name and tyname(s) == adt:
                return b
        return None

    def trait_default(self, trait, name):
        for b in self.roots:
            t = b.get('trait')
            if t and t.split('::')[-1] == trait and b.get('name') == name:
                return b
        return None

    def free(self, name, mod=None):
        r = [b for b in self.roots if b.get('name') == name and not b.get('impl_self') and not b.get('trait')
             and (mod is None or mod in b['p'])]
        return r[0] if r else None

def tyname(t):
    k = t.get('k')
    if k == 'adt':
        return t['p'].split('::')[-1]
    if k == 'ref':
        return '&' + ('mut ' if t.get('mut') else '') + tyname(t['t'])
    if k in ('param', 'float', 'int'):
        return t['n']
    if k == 'tuple':
        return '(%s)' % ','.join(tyname(x) for x in t.get('a', t.get('ts', [])))
    return k

_cached = None
def load():
    global _cached
    if _cached is None:
        _cached = Mir(dump())
    return _cached
