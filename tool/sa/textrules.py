"""File names, separators and column names shared between the C++ writers and the plotting scripts."""
import ast
import os


def columns(ck, repo):
    cov = {"scripts": 0, "facts": 0}
    facts = {
        "nmpc_cgmres/scripts/plotCgmresData.py": {"delims": {","}, "files": {"cgmres_x.dat", "cgmres_u.dat", "cgmres_err.dat", "cgmres_param.dat"}, "keys": None},
        "nmpc_ddp/scripts/plotDDPTraceData.py": {"delims": {" "}, "files": None, "keys": {"iter"}},
    }
    for rel, want in facts.items():
        p = os.path.join(repo, rel)
        if not os.path.exists(p):
            continue
        try:
            t = ast.parse(open(p).read())
        except SyntaxError as x:
            ck.violate(file=p, line=x.lineno, function="", output="script", detail="the plotting script does not parse", key=rel + "|syntax")
            continue
        cov["scripts"] += 1
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "genfromtxt":
                for k in n.keywords:
                    if k.arg == "delimiter" and isinstance(k.value, ast.Constant):
                        cov["facts"] += 1
                        if k.value.value not in want["delims"]:
                            ck.violate(file=p, line=n.lineno, function="", output="script", detail="reads the file with delimiter %r, the library writes %s" % (k.value.value, sorted(want["delims"])), key=rel + "|delim")
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith((".dat",)) and want["files"] is not None:
                cov["facts"] += 1
                if os.path.basename(n.value) not in want["files"]:
                    ck.violate(file=p, line=n.lineno, function="", output="script", detail="reads %s, which the library does not write" % n.value, key=rel + "|file")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and want["keys"] is not None:
                cov["facts"] += 1
                if n.slice.value not in want["keys"]:
                    ck.violate(file=p, line=n.lineno, function="", output="script", detail="reads column %r, which is not in the header" % n.slice.value, key=rel + "|key")
    ck.cov["scripts"] = cov
