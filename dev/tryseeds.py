#!/usr/bin/env python3
"""run the check of each planted change on a scratch copy: tryseeds.py [ids]; -a: all checks"""
import sys, os, json, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
allc = '-a' in sys.argv
sel = [x for x in sys.argv[1:] if x != '-a']
PIDS = ["C%02d" % i for i in range(1, 28)] + ["C32"]
def one(s):
    r = '/tmp/ts/%s' % s
    shutil.rmtree(r, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    x = subprocess.run(['git', '-C', r, 'apply', '%s/%s/patch.diff' % (S, s)], capture_output=True, text=True)
    if x.returncode: return s, 'PATCH ' + x.stderr
    own = json.load(open('%s/%s/meta.json' % (S, s)))['property']
    out = []
    for p in (PIDS if allc else [own]):
        y = subprocess.run(['/verif/bin/check', p], capture_output=True, text=True, env=dict(os.environ, VP_REPO=r, VP_EVID='/tmp/ts/ev_' + s))
        if y.returncode or p == own:
            l = [z for z in y.stdout.split('\n') if z.strip()]
            out.append('%s rc=%d%s %s' % (p, y.returncode, '*' if p == own else '', l[0][:200] if l else y.stderr[-300:]))
    shutil.rmtree(r, ignore_errors=True)
    return s, '\n     '.join(out)
with ThreadPoolExecutor(5) as ex:
    for s, m in ex.map(one, sorted(x for x in os.listdir(S) if not sel or any(x.startswith(y) for y in sel))):
        print(s, '::', m, flush=True)
