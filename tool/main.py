#!/usr/bin/env python3-vt
"""check <property> [--thorough]: decide one property for the current tree of /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.environ.get("VP_EVID") or os.path.join(VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(1000000)

DRV = {
    "ddp": "#include <nmpc_ddp/DDPSolver.h>\ntemplate class nmpc_ddp::DDPSolver<3, 2>;\ntemplate class nmpc_ddp::DDPSolver<3, -1>;\n"
           "template class nmpc_ddp::BoxQP<-1>;\ntemplate class nmpc_ddp::BoxQP<3>;\n"
           "template class nmpc_ddp::DDPProblem<3, 2>;\ntemplate class nmpc_ddp::DDPProblem<3, -1>;\n",
    "fmpc": "#include <nmpc_fmpc/FmpcSolver.h>\ntemplate class nmpc_fmpc::FmpcSolver<3, 2, 4>;\ntemplate class nmpc_fmpc::FmpcSolver<3, -1, -1>;\n"
            "template class nmpc_fmpc::FmpcProblem<3, 2, 4>;\ntemplate class nmpc_fmpc::FmpcProblem<3, -1, -1>;\n",
    "cgmres": "#include \"@/nmpc_cgmres/src/CgmresSolver.cpp\"\n",
}


class NoAnswer(Exception):
    pass


def includes(root):
    if root == SPEC:
        return ["-I/usr/include/eigen3", "-I" + SPEC]
    return ["-I/usr/include/eigen3"] + ["-I%s/%s/include" % (root, m) for m in ("nmpc_ddp", "nmpc_fmpc", "nmpc_cgmres")]


def extractor(scratch):
    """the committed binary when it runs here, otherwise one built from source"""
    b = os.path.join(VERIF, "bin", "extract")
    try:
        r = subprocess.run([b], capture_output=True, timeout=20)
        if r.returncode in (0, 1, 2):
            return b
    except Exception:
        pass
    b = os.path.join(scratch, "extract")
    subprocess.run([os.path.join(VERIF, "bin", "build_extract.sh"), b], check=True, capture_output=True)
    return b


def extract(tool, scratch, mod, root, tag):
    d = os.path.join(scratch, "%s_%s.cpp" % (tag, mod))
    o = os.path.join(scratch, "%s_%s.json" % (tag, mod))
    with open(d, "w") as f:
        f.write(DRV[mod].replace("@/nmpc_cgmres/src", root + ("/nmpc_cgmres" if root == SPEC else "/nmpc_cgmres/src")))
    r = subprocess.run([tool, o, root + "/", "--", "-std=c++17"] + includes(root) + ["-fsyntax-only", d], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(o):
        raise NoAnswer("%s does not compile in the analysis driver: %s" % (mod, (r.stderr or r.stdout)[-2000:]))
    return o


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []          # dicts
        self.known = []
        self.cov = {}
        self.undecided = []
        self.notes = []

    def violate(self, **kw):
        self.violations.append(kw)

    def rel(self, f):
        return os.path.relpath(f, REPO) if f and f.startswith(REPO + "/") else f

    def run(self):
        from sa import props
        p = props.P[self.pid]
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % self.pid)
        try:
            if p["mods"]:
                self.semantic(p)
            for x in p["extra"]:
                f = getattr(self, "x_" + x, None)
                if f:
                    f()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        return self.finish()

    # ------------------------------------------------------------ value-graph comparison
    def semantic(self, p):
        tool = extractor(self.scratch)
        jobs = [(m, r, t) for m in p["mods"] for r, t in ((REPO, "impl"), (SPEC, "spec"))]
        with ThreadPoolExecutor(8) as ex:
            fs = {(m, t): ex.submit(extract, tool, self.scratch, m, r, t) for m, r, t in jobs}
        paths = {k: f.result() for k, f in fs.items()}
        self.paths = paths
        # modules are independent: one process each
        if len(p["mods"]) > 1:
            res = []
            ps = []
            for m in p["mods"]:
                o = os.path.join(self.scratch, "res_%s.json" % m)
                ps.append((m, o, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--module", self.pid, m, self.tier, paths[(m, "impl")], paths[(m, "spec")], o],
                                                  stderr=subprocess.PIPE, text=True)))
            for m, o, q in ps:
                err = q.communicate()[1]
                if q.returncode != 0 or not os.path.exists(o):
                    raise NoAnswer("analysis of %s ended with %s: %s" % (m, q.returncode, err[-1500:]))
                res.append(json.load(open(o)))
        else:
            m = p["mods"][0]
            res = [module(self.pid, m, self.tier, paths[(m, "impl")], paths[(m, "spec")], self.seed)]
        for m, r in zip(p["mods"], res):
            self.cov[m] = r["coverage"]
            self.undecided += r["undecided"]
            for v in r["violations"]:
                self.violate(**v)

    # ------------------------------------------------------------ result
    def finish(self):
        known = load_known()
        rep = []
        for v in self.violations:
            k = next((k for k in known if k["property"] == self.pid and matches(k, v)), None)
            if k is not None:
                self.known.append(k)
            else:
                rep.append(v)
        from sa import meta
        m = meta.M[self.pid]
        for k in {x["what"]: x for x in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {"explanation": m["explanation"], "rule": m["rule"], "analysed": self.cov}
        if self.undecided:
            cov["undecided"] = self.undecided[:60]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov, "assumptions": meta.ASSUME + m.get("assume", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(rep)}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if rep:
            rp = os.path.join(EVID, "replay_%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "how": "bin/check %s re-analyses /repo and reports the same constructs" % self.pid, "violations": rep}, f, indent=1)
            for v in rep[:12]:
                print("  %s:%s %s: %s" % (self.rel(v.get("file") or "") or "?", v.get("line") or 0, v.get("function") or "", v.get("detail") or ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s %s" % (self.pid, "(%d obligations undecided)" % len(self.undecided) if self.undecided else ""))
        return 0

    def x_leftover(self):
        pass

    def x_nonterm(self):
        pass

    def x_print(self):
        pass

    def x_columns(self):
        from sa import textrules
        textrules.columns(self, REPO)

    def x_compile(self):
        from sa import witness
        witness.compile_ok(self, REPO)

    def x_access(self):
        from sa import witness
        witness.access(self, REPO)


def load_known():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def matches(k, v):
    return k.get("key") is not None and k["key"] == v.get("key")


def module(pid, m, tier, impl, spec, seed):
    """analysis of one module for one property (in its own process when several modules are involved)"""
    from sa import decide
    return decide.module(pid, m, tier, impl, spec, seed)


def main():
    a = sys.argv[1:]
    if a[0] == "--module":
        r = module(a[1], a[2], a[3], a[4], a[5], int(os.environ.get("VERIF_SEED", "1") or 1))
        with open(a[6], "w") as f:
            json.dump(r, f)
        return 0
    tier = "thorough" if "--thorough" in a else "quick"
    c = Check(a[0], tier)
    try:
        return c.run()
    except NoAnswer as x:
        print("NO ANSWER property=%s %s" % (a[0], x))
        return 2


RC = [2]


def guard():
    try:
        RC[0] = main()
    except Exception:
        import traceback
        traceback.print_exc()
        RC[0] = 2


if __name__ == "__main__":
    th = threading.Thread(target=guard)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(RC[0])
