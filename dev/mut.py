#!/usr/bin/env python3-vt
"""run the analysis on deliberate breakages in scratch copies: mut.py [-e] [ids]"""
import sys, os, re, subprocess, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from mutants import MUT
ids = [a for a in sys.argv[1:] if a[0] != '-']
def one(x):
    id, prop, f, a, b = x
    d = '/tmp/mut/%s' % id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % d, shell=True, check=True)
    try:
        for f, a, b in (f if isinstance(f, list) else [(f, a, b)]):
            p = os.path.join(d, f); s = open(p).read()
            if a not in s: return id, prop, 'EDIT does not match: %s' % a[:80]
            open(p, 'w').write(s.replace(a, b, 1))
            mod = 'ddp' if 'ddp' in f else 'fmpc' if 'fmpc' in f else 'cgmres'
        r = subprocess.run(['timeout', '900', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'all.py'), d, mod] + (['-e'] if '-e' in sys.argv else []), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
        return id, prop, r.stdout + r.stderr[-1500:]
    finally:
        if '-k' not in sys.argv: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(7) as ex:
    for id, prop, o in ex.map(one, [x for x in MUT if not ids or x[0] in ids or any(x[0].startswith(i) for i in ids)]):
        ok = "'%s'" % prop in o
        print('caught' if ok else 'other ' if 'HIT' in o else 'QUIET ', id, prop, ('' if ok and '-v' not in sys.argv else o.strip()[:900]), flush=True)
