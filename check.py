#!/usr/bin/env python3
"""check.py <property>: decides the property on /repo's current working tree."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules')]
os.environ.setdefault('PYTHONHASHSEED', '0')

def main(pid):
    import importlib, report, context
    mod = importlib.import_module(pid.lower())
    rep = report.Report(pid, getattr(mod, 'TECHNIQUE', ''))
    ctx = context.Context()
    mod.run(rep, ctx)
    return rep.finish()

if __name__ == '__main__':
    import resource, threading
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    if os.environ.get('VERIF_STACK') != '1':
        os.environ['VERIF_STACK'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1]))
