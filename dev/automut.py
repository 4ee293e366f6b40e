#!/usr/bin/env python3-vt
"""systematic small mutations of the library, to look for deviations the analysis misses: automut.py SEED COUNT [-e] [file substring]"""
import sys, os, re, random, subprocess, shutil, concurrent.futures as cf
FILES = ["nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp","nmpc_ddp/include/nmpc_ddp/DDPSolver.h","nmpc_ddp/include/nmpc_ddp/BoxQP.h","nmpc_ddp/include/nmpc_ddp/DDPProblem.h",
 "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp","nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h","nmpc_fmpc/include/nmpc_fmpc/FmpcProblem.h","nmpc_fmpc/include/nmpc_fmpc/MathUtils.h",
 "nmpc_cgmres/include/nmpc_cgmres/Gmres.h","nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h","nmpc_cgmres/src/CgmresSolver.cpp","nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h","nmpc_cgmres/include/nmpc_cgmres/CgmresProblem.h"]
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '),
 (r'&&', '||'), (r'\|\|', '&&'), (r'\+=', '-='), (r'-=', '+='), (r' \+= ', ' = '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\[i\]', '[0]'), (r'\[i \+ 1\]', '[i]'), (r'i \+ 1\b', 'i'),
 (r'\.transpose\(\)', ''), (r'\b0\.5\b', '1.0'), (r'\b1e-(\d)', r'2e-\1'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'cwiseMin', 'cwiseMax'), (r'-1 \* ', ''), (r'\bx_list\b', 'u_list'), (r's_list', 'nu_list'), (r'nu_list', 's_list'),
 (r'\bdt\b', '(2 * dt)'), (r'horizon_steps\b', 'horizon_steps - 1'), (r' / ', ' * '), (r'\bint i = 0', 'int i = 1'), (r'^(\s*)(\w[^;{}]* = [^;{}]*;|\w[\w.\->\[\]]*\([^;{}]*\);)$', r'\1;'), (r'\b([2-9]|[1-9]\d+)\b', r'(\1 + 1)'), (r'\.all\(\)', '.any()'), (r'\.any\(\)', '.all()'), (r'break;', ';'), (r'\bcol\(i\)', 'col(0)'), (r'std::abs', '')]
def cand():
    out = []
    for f in FILES:
        for ln, l in enumerate(open('/repo/' + f).read().split('\n')):
            c = l.split('//')[0]
            if not c.strip() or c.strip().startswith(('*', '/*', '\\', '#', 'template', 'using', 'typedef')) or 'std::cout' in c or '<<' in c or 'duration' in c: continue
            if re.match(r'\s*(class|struct|namespace|public|static_assert)', c): continue
            for pat, rep in OPS:
                for m in re.finditer(pat, c):
                    n = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if n != l: out.append((f, ln, l, n))
    return out
def one(x):
    k, f, ln, a, b = x
    d = '/tmp/automut/%d' % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % d, shell=True, check=True)
    try:
        L = open(d + '/' + f).read().split('\n'); L[ln] = b
        open(d + '/' + f, 'w').write('\n'.join(L))
        mods = ['ddp', 'fmpc'] if 'nmpc_ddp/' in f and 'Problem' in f else ['ddp' if 'nmpc_ddp/' in f else 'fmpc' if 'fmpc' in f else 'cgmres']
        r = subprocess.run(['timeout', '900', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'all.py'), d, mods[0]] + (['-e'] if '-e' in sys.argv else []), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
        return k, f, ln, a, b, r.stdout + r.stderr[-800:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    C = cand(); random.Random(int(sys.argv[1])).shuffle(C)
    sub = [x for x in sys.argv[3:] if x[0] != '-']
    if sub: C = [c for c in C if sub[0] in c[0]]
    at = [x[2:] for x in sys.argv[3:] if x.startswith('-l')]
    if at: C = [c for c in C if any('%s:%d' % (c[0].split('/')[-1], c[1] + 1) == x for x in at)]
    C = C[:int(sys.argv[2])]
    with cf.ThreadPoolExecutor(7) as ex:
        for k, f, ln, a, b, o in ex.map(one, [(k,) + c for k, c in enumerate(C)]):
            st = 'NOCOMP' if 'NOANSWER' in o else 'UNATTR' if 'UNATTRIBUTED' in o else 'caught' if 'HIT' in o else 'QUIET '
            print(st, '%s:%d' % (f.split('/')[-1], ln + 1), '|', a.strip(), '=>', b.strip(), '|', '' if st in ('caught', 'NOCOMP') else o.strip()[:500].replace('\n', ' '), flush=True)
