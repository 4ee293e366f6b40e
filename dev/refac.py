#!/usr/bin/env python3-vt
"""apply behaviour-preserving edits in scratch copies and run the analysis: refac.py [-c] [-e] [ids]   (-c: also compile/tests)"""
import sys, os, subprocess, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from refacs import R
ids = [a for a in sys.argv[1:] if a[0] != '-']
def one(x):
    id, mods, edits = x
    d = '/tmp/refac/%s' % id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % d, shell=True, check=True)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) != 1: return id, 'EDIT %d matches: %s' % (s.count(a), a[:80])
            open(p, 'w').write(s.replace(a, b))
        r = subprocess.run(['timeout', '900', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'all.py'), d, mods] + (['-e'] if '-e' in sys.argv else []), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
        return id, r.stdout + r.stderr[-1500:]
    finally:
        if '-k' not in sys.argv: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(7) as ex:
    for id, o in ex.map(one, [x for x in R if not ids or x[0] in ids or x[0][0] in ids]):
        print('==', id, o.strip(), flush=True)
