"""The engine against the execution of the functions of src/lib.rs: python3-vt selftest/run.py"""
import os, sys, subprocess, random, collections, time, signal
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path[:0] = [V + '/engine', V]
sys.setrecursionlimit(100000)
import build
subprocess.check_call([sys.executable, 'gen.py'], cwd=H)
T = '/tmp/selftest-target'
e = build._env()
d = build.driver()
out = '/tmp/selftest.json'
if os.path.exists(out): os.remove(out)
subprocess.call('touch src/lib.rs', shell=True, cwd=H)
e2 = dict(e, VFACTS_CRATE='selftest', VFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=d, RUSTFLAGS='-Zmir-opt-level=0 --cap-lints allow', CARGO_TARGET_DIR=T)
subprocess.check_call(['cargo', '+nightly', 'check', '-q', '--lib', '--offline'], cwd=H, env=e2)
subprocess.check_call(['cargo', 'build', '-q', '--offline'], cwd=H, env=dict(e, CARGO_TARGET_DIR=T + '2'))
rnd = random.Random(5)
ins = []
def val():
    return rnd.choice([rnd.randint(-3, 3), rnd.randint(0, 12), rnd.randint(-100, 100), rnd.randint(-9, 9)])
for j in range(40):
    ins.append(([val() for _ in range(rnd.randint(0, 7))], [val() for _ in range(rnd.randint(0, 5))], rnd.randint(0, 6)))
p = subprocess.run([T + '2/debug/selftest'], input='\n'.join('%s;%s;%d' % (' '.join(map(str, a)), ' '.join(map(str, b)), n) for a, b, n in ins).encode(), stdout=subprocess.PIPE)
lines = [[eval(x) for x in l.split(';') if x.strip()] for l in p.stdout.decode().splitlines()]
import lib, evalu
from lib import *
L = lib.Lib(out)
class TO(BaseException): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM, h)
import re
fs = re.findall(r'^pub fn (\w+)\(', open(H + '/src/lib.rs').read(), re.M)
res = collections.Counter()
sel = sys.argv[1:]
for i, f in enumerate(fs):
    if sel and f not in sel: continue
    t = time.time()
    signal.alarm(40)
    try:
        S = L.summary(f)
    except TO:
        import traceback; tb = traceback.format_exc().splitlines()
        print('SLOW ', f, [x.strip() for x in tb if 'line' in x][-12:]); res['slow'] += 1; L.sum.pop(f, None); continue
    if S is None:
        print('UND  ', f, L.fail.get(f)); res['undecided'] += 1; continue
    bad = ab = ok = 0
    msg = ''
    for (a, b, n), l in zip(ins, lines):
        try:
            c = L.call(f, [ref(tuple(a)), ref(tuple(b)), n])
            r = list(c.deep(c.ret))
            if r != l[i]: bad += 1; msg = '%s %s %d: %s instead of %s' % (a, b, n, r, l[i])
            else: ok += 1
        except TO:
            ab += 1; msg = 'timeout'; break
        except Exception as x:
            ab += 1; msg = '%s %s' % (type(x).__name__, str(x)[:100])
    signal.alarm(0)
    k = 'BAD' if bad else 'abst' if ab else 'ok'
    res[k] += 1
    if k != 'ok' or sel: print('%-5s' % k, f, ok, bad, ab, msg, '%.1fs' % (time.time() - t), flush=True)
print(dict(res))
