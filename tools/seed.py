#!/usr/bin/env python3
"""Makes and verifies a planted bug: tools/seed.py FILE...  Each FILE (python) defines ID, PROP, NEEDS, WHAT, EDITS [(file, old, new)], DEMO (rust main.rs)."""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/work"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n\\n[dependencies]\\nnetcdf3 = { path = "%s" }\\n\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline || exit 2
cd "$t/work" && exec_rc=0
"$t/target/debug/demo" || exec_rc=$?
exit $exec_rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def fresh():
    if not os.path.exists(W):
        sh('cp -a /repo %s' % W)
    h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD']).decode().strip()
    sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f %s && git clean -qfd src tests' % (W, h))

def main(f):
    g = runpy.run_path(f)
    d = os.path.join(V, 'seeded', g['ID'])
    fresh()
    for p, a, b in g['EDITS']:
        q = os.path.join(W, p)
        s = open(q).read()
        if s.count(a) != 1:
            print(g['ID'], 'EDIT matches', s.count(a), 'times:', a[:60]); return False
        open(q, 'w').write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', W, 'diff']))
    open(d + '/demo.sh', 'w').write(g.get('DEMO_SH', DEMO_SH))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(g['DEMO'].lstrip())
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(d + '/meta.json', 'w'), indent=1)
    clean = sh('bash %s/demo.sh' % d, cwd='/repo')
    pat = sh('bash %s/demo.sh' % d, cwd=W)
    t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=W).stdout.decode()
    failed = [l for l in t.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED')]
    npass = sum(1 for l in t.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok'))
    chk = {}
    props = sys.argv[sys.argv.index('--') + 1:] if '--' in sys.argv else [g['PROP']]
    if props == ['all']:
        props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for p in props:
        r = sh('python3 check.py %s' % p, cwd=V, env=dict(os.environ, VERIF_REPO=W))
        chk[p] = r.returncode
        if r.returncode:
            print('   ', p, [l[:230] for l in r.stdout.decode().splitlines() if l.startswith('  ')][:2])
    good = clean.returncode == 0 and pat.returncode not in (0, 2) and not failed and npass >= 182
    print(g['ID'], 'OK' if good else 'BAD', 'clean', clean.returncode, 'patched', pat.returncode, 'pass', npass, 'failed', failed[:2], 'checks', chk)
    if not good:
        print('  ', failed[:8]); print(pat.stdout.decode()[-200:] if pat.returncode in (0, 2) else '')

    sh('cd %s && git checkout -q -f .' % W)
    return good
if __name__ == '__main__':
    fs = sys.argv[1:sys.argv.index('--')] if '--' in sys.argv else sys.argv[1:]
    for f in fs:
        main(f)
