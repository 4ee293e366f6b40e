#!/usr/bin/env python3
"""Build the planted changes from dev/seeds/seeds.py: patch, demo, meta; confirm each in a scratch copy."""
import sys, os, json, shutil, subprocess, importlib
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + '/seeds')
import seeds
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s -I/usr/include/eigen3 -Inmpc_ddp/include -Inmpc_fmpc/include -Inmpc_cgmres/include -I"$here" \\
  "$here/demo.cpp"%s -o "$tmp/demo" || exit 3
cd "$tmp" && timeout %d ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s):
    sid = s['id']; base = '/tmp/seedw/%s' % sid
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    r = base + '/repo'
    sh('git clone -q /repo %s' % r)
    for f, old, new in s['edits']:
        t = open(r + '/' + f).read()
        if t.count(old) < 1: return sid, 'NOMATCH ' + old[:60]
        open(r + '/' + f, 'w').write(t.replace(old, new, 1))
    patch = sh('git -C %s diff' % r).stdout
    d = OUT + '/' + sid
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    mac = s.get('use', 'DDP')
    open(d + '/demo.cpp', 'w').write('#define USE_%s\n#include "common.h"\n' % mac + s['demo'])
    shutil.copy(here + '/seeds/common.h', d + '/common.h')
    extra = ' nmpc_cgmres/src/CgmresSolver.cpp' if mac == 'CG' else ''
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO % (s.get('flags', ''), extra, s.get('timeout', 60)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    x = sh('bash %s/demo.sh' % d, cwd='/repo')
    if x.returncode: return sid, 'DEMO FAILS UNCHANGED %d %s' % (x.returncode, (x.stdout + x.stderr)[-800:])
    x = sh('bash %s/demo.sh' % d, cwd=r)
    if x.returncode == 0: return sid, 'DEMO PASSES WITH CHANGE ' + (x.stdout + x.stderr)[-600:]
    demo_rc = x.returncode; tail = (x.stdout + x.stderr)[-300:]
    b = base + '/_build'
    x = sh('CC=gcc CXX=g++ cmake -S /opt/vp/standalone -B %s -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON && ninja -j3 -C %s' % (b, r, b))
    if x.returncode: return sid, 'BUILD FAILS ' + (x.stdout + x.stderr)[-800:]
    x = sh('ctest --test-dir %s -j1 --timeout 300' % b)
    shutil.rmtree(base, ignore_errors=True)
    if '100% tests passed' not in x.stdout: return sid, 'TESTS FAIL ' + x.stdout[-600:]
    return sid, 'OK (demo rc %d) %s' % (demo_rc, tail.strip().replace('\n', ' | '))
sel = sys.argv[1:]
with ThreadPoolExecutor(4) as ex:
    for sid, msg in ex.map(one, [s for s in seeds.SEEDS if not sel or s['id'] in sel]):
        print(sid, msg, flush=True)
shutil.rmtree('/tmp/seedw', ignore_errors=True)
