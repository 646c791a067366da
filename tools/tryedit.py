#!/usr/bin/env python3
"""tools/tryedit.py FILE DIR: applies the EDITS of a seed file to a copy of /repo in DIR"""
import sys, runpy, subprocess, os
g = runpy.run_path(sys.argv[1]); d = sys.argv[2]
if not os.path.exists(d):
    subprocess.check_call(['cp', '-a', '/repo', d])
subprocess.check_call('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', shell=True, cwd=d)
for p, a, b in g['EDITS']:
    q = os.path.join(d, p); s = open(q).read(); assert s.count(a) == 1, (s.count(a), a); open(q, 'w').write(s.replace(a, b))
