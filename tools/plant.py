"""python3 tools/plant.py bugs.py [id...]: bugs.py defines BUGS = {id: dict(prop, edits=[(file, old, new)], into=file, demo=rust test body, needs, breaks)}.
Confirms each in a scratch copy (builds, tests pass, demo passes without and fails with it) and writes seeded/<id>/."""
import sys, os, subprocess, shutil, json, tempfile, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
DEMO = '''#!/bin/bash
# builds the demonstration test into a scratch copy of the crate and runs it
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r src Cargo.toml "$w"/ || exit 3
[ -f Cargo.lock ] && cp Cargo.lock "$w"/
cat "$d/demo.rs" >> "$w/%s" || exit 3
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" timeout 240 cargo test --offline --lib vp_demo 2>&1 | tail -40 > "$w/log"
cat "$w/log"
grep -q "test result: ok. [1-9][0-9]* passed" "$w/log"
'''
def sh(c, cwd, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
S = '/tmp/plant'
for bid, b in mod.BUGS.items():
    if sys.argv[2:] and bid not in sys.argv[2:]:
        continue
    shutil.rmtree(S, ignore_errors=True)
    sh('git clone -q /repo %s' % S, '/')
    for f, old, new in b['edits']:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', S).stdout
    env = dict(os.environ, CARGO_TARGET_DIR='/tmp/plant-target')
    r = sh('cargo test --offline --lib 2>&1 | tail -3', S, env=env)
    ok = '43 passed; 0 failed' in r.stdout
    d = os.path.join(HERE, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write('\n#[cfg(test)]\nmod vp_demo {\n' + b['demo'] + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO % b['into'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    good = sh('bash %s/demo.sh' % d, '/repo')
    bad = sh('bash %s/demo.sh' % d, S)
    c = sh('python3 check.py ' + b['prop'], HERE, env=dict(os.environ, VERIF_REPO=S))
    lines = [l for l in c.stdout.split('\n') if l.strip()]
    print(bid, b['prop'], 'tests ok' if ok else 'TESTS FAIL ' + r.stdout[-300:], '| clean demo', good.returncode, '| bug demo', bad.returncode, '| check', c.returncode)
    if good.returncode:
        print(good.stdout[-1500:])
    if bad.returncode == 0 or 'could not compile' in bad.stdout:
        print(bad.stdout[-1500:])
    print('    ', (lines[0] if c.returncode == 0 else ' / '.join(l[:260] for l in lines if ': ' in l and 'KNOWN' not in l)[:520]))
shutil.rmtree(S, ignore_errors=True)
