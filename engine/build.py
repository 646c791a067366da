"""Builds the fact extractor and extracts the facts of /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
REPO = os.environ.get('VERIF_REPO', '/repo')

def _h(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def sources(repo=None):
    repo = repo or REPO
    r = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'data', 'pyscripts', 'node_modules'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                r.append(os.path.join(d, f))
    return r

def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC'):
            del e[k]
    s = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, check=True, env=e).stdout.decode().strip()
    e['LD_LIBRARY_PATH'] = s + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e

class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def driver():
    """path of the fact extractor, built from driver/driver.rs when needed"""
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    out = os.path.join(CACHE, 'driver-' + _h([src]))
    if not os.path.exists(out):
        subprocess.run(['bash', os.path.join(VERIF, 'driver', 'build.sh'), out + '.tmp'], check=True, stdout=sys.stderr)
        os.rename(out + '.tmp', out)
    return out

class DoesNotBuild(Exception):
    pass

def facts():
    """facts (JSON) of the library in the current tree"""
    with Lock():
        d = driver()
        key = _h(sources()) + '-' + os.path.basename(d)[7:]
        out = os.path.join(CACHE, 'facts-%s.json' % key)
        if not os.path.exists(out):
            tgt = tempfile.mkdtemp(prefix='tgt', dir=CACHE)
            try:
                e = _env()
                e.update(VFACTS_CRATE='netcdf3', VFACTS_OUT=out + '.tmp', RUSTC_WORKSPACE_WRAPPER=d,
                         RUSTFLAGS='-Zmir-opt-level=0 --cap-lints allow', CARGO_TARGET_DIR=tgt)
                p = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode or not os.path.exists(out + '.tmp'):
                    raise DoesNotBuild(p.stdout.decode()[-3000:])
                os.rename(out + '.tmp', out)
            finally:
                shutil.rmtree(tgt, ignore_errors=True)
        return out

def rmeta(tgt):
    """type-checks the library (no wrapper) in the directory tgt; path of its metadata and of its dependencies"""
    e = _env()
    e.update(CARGO_TARGET_DIR=tgt)
    p = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--message-format=json'], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise DoesNotBuild(p.stderr.decode()[-3000:])
    lib = None
    dirs = set()
    for l in p.stdout.decode().splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact':
            dirs.update(os.path.dirname(f) for f in m['filenames'])
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'netcdf3':
            lib = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
    return lib, sorted(dirs), e

if __name__ == '__main__':
    print(facts())
