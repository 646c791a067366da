"""Runs obligations in worker processes."""
import multiprocessing, os, random, signal, sys, time, traceback
import build
from evalu import Abstain

class Timeout(Exception):
    pass

def _alarm(*a):
    raise Timeout()

_L = {}

def lib(exact=True):
    from lib import Lib
    k = exact
    if k not in _L:
        _L[k] = Lib(build.facts(), exact)
    return _L[k]

def _one(job):
    f, key, args, limit = job
    from lib import Missing
    import terms
    out = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        f(random.Random('%d/%s' % (seed, key)), out, *args)
    except Timeout:
        out.append((key, 'residual', 'not decided within %d s' % limit))
    except Missing as e:
        out.append((key, 'residual', 'the code has no %s' % e))
    except Abstain as e:
        out.append((key, 'residual', str(e)))
    except (RecursionError, MemoryError) as e:
        out.append((key, 'residual', type(e).__name__))
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        out.append((key, 'residual', '%s: %s' % (type(e).__name__, str(e)[:200])))
    finally:
        signal.alarm(0)
    return key, out, time.time() - t

def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'

def _results(pool, it, keys, patience):
    """the results as they come; when a worker was ended from outside, those of its jobs are residual"""
    left = list(keys)
    while left:
        try:
            r = it.next(timeout=patience)
        except StopIteration:
            return
        except multiprocessing.TimeoutError:
            for k in left:
                yield k, [(k, 'residual', 'no result (the worker was ended)')], 0.0
            pool.terminate()
            return
        if r[0] in left:
            left.remove(r[0])
        yield r

def run(rep, jobs, limit=None):
    """jobs: [(function(rng, out, *args), key, args)]; out receives (key, 'ok' | 'agreed' | 'bad' | 'residual', text)"""
    limit = limit or (900 if thorough() else 150)
    jobs = [(f, k, a, limit) for f, k, a in jobs]
    build.facts()
    ctx = multiprocessing.get_context('fork')
    n = int(os.environ.get('VERIF_JOBS', '8'))
    wall = {}
    if n <= 1:
        res = map(_one, jobs)
        pool = None
    else:
        import gc, terms
        terms.shrink()
        gc.freeze()
        pool = ctx.Pool(n, maxtasksperchild=None)
        res = _results(pool, pool.imap_unordered(_one, jobs), [j[1] for j in jobs], limit + 45)
    for key, out, dt in res:
        wall[key] = dt
        for k, s, text in out:
            if s == 'ok':
                rep.ok(k, text)
            elif s == 'agreed':
                rep.agreed(k, text)
            elif s == 'bad':
                rep.bad(k, text)
            elif s == 'count':
                rep.count(k, text)
            else:
                rep.residual(k, text)
    if pool:
        pool.close()
        pool.join()
    slow = sorted(wall.items(), key=lambda x: -x[1])[:3]
    rep.cov['slowest'] = {k: round(v, 1) for k, v in slow}
