import os, sys, time, traceback, collections, signal
import dev, interp
from terms import *
F = interp.Facts('/tmp/facts.json')
flt = sys.argv[1] if len(sys.argv) > 1 else ''
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 20
errs = collections.Counter(); ok = 0
class TO(Exception): pass
def h(*a): raise TO('timeout')
signal.signal(signal.SIGALRM, h)
for r in F.roots:
    if r.get('trait') and not 'Parti' in r['trait'] and not 'From' in r['trait']: continue
    if flt not in r['path']: continue
    t = time.time()
    if os.fork(): os.wait(); continue
    signal.alarm(lim)
    try:
        I, fn, args, s, v = dev.analyse(F, r['fn'])
        signal.alarm(0)
        ok += 1
        print('ok  %-60s %.2fs ret=%d %s' % (r['path'], time.time()-t, len(list(subterms(v))), dict(I.unknown) or ''))
    except BaseException as e:
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        m = '%s %s @%s:%d %s' % (type(e).__name__, str(e)[:80], tb.filename.split('/')[-1], tb.lineno, getattr(e, 'where', ''))
        errs[m] += 1
        print('ERR %-60s %.2fs %s' % (r['path'], time.time()-t, m))
    sys.stdout.flush(); os._exit(0)
print(ok, 'ok'); 
for m, n in errs.most_common(): print(n, m)
