#!/usr/bin/env python3-vt
"""all value-graph properties of one tree at once: all.py ROOT [mods]; prints one line per (property, output)"""
import sys, os, json, time, threading, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tool'))
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(1000000)
os.environ['VP_REPO'] = sys.argv[1]
import main as M
def go():
    from sa import decide, props
    sc = tempfile.mkdtemp()
    ev = '-e' in sys.argv
    try:
        for m in sys.argv[2].split(','):
            t = time.time()
            tool = M.extractor(sc)
            try:
                a, b = M.extract(tool, sc, m, sys.argv[1], 'impl'), M.extract(tool, sc, m, M.SPEC, 'spec')
            except M.NoAnswer as x:
                print('NOANSWER', x); continue
            mod, an = decide.prepare(m, 'quick', a, b, 1)
            hits = {}
            for pid, p in props.P.items():
                if m not in p['mods']: continue
                if not ev and not an.findings and (p['ev'] or 'print' in p['extra']): 
                    continue
                if not ev: p = dict(p, ev=()); props.P[pid] = dict(p, extra=[x for x in p['extra'] if x != 'print' or ev])
                r = decide.judge(pid, m, 'quick', mod, an)
                for v in r['violations']: hits.setdefault(pid, []).append(v)
            allf = [(f.unit.id, o[0]) for f in an.findings for o in f.diffs]
            print('%s %.0fs obl=%s und=%s benign=%s findings=%d' % (m, time.time() - t, an.obl, [str(x)[:120] for x in an.undecided[:4]], an.benign, len(an.findings)))
            if an.findings or hits:
                print('   HIT', {k: len(v) for k, v in hits.items()}, 'first', next(('%s %s:%s %s' % (v[0]['function'], v[0]['output'], '', v[0]['detail'][:200]) for v in hits.values()), allf[:4]))
                if not hits: print('   UNATTRIBUTED', allf[:8])
    finally:
        shutil.rmtree(sc, ignore_errors=True)
th = threading.Thread(target=go); th.start(); th.join()
