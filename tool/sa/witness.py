"""Type-level witnesses: translation units that must, or must not, type-check against the headers of /repo."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

HEADERS = ["nmpc_ddp/BoxQP.h", "nmpc_ddp/DDPProblem.h", "nmpc_ddp/DDPSolver.h", "nmpc_fmpc/FmpcProblem.h", "nmpc_fmpc/FmpcSolver.h", "nmpc_fmpc/MathUtils.h",
           "nmpc_cgmres/CgmresProblem.h", "nmpc_cgmres/CgmresSolver.h", "nmpc_cgmres/Gmres.h", "nmpc_cgmres/OdeSolver.h"]
INST = [("nmpc_ddp/DDPSolver.h", "nmpc_ddp::DDPSolver<%s>", ["4, 2", "4, -1", "1, 1", "2, 2", "1, 3", "1, -1"]),
        ("nmpc_ddp/BoxQP.h", "nmpc_ddp::BoxQP<%s>", ["-1", "1", "3"]),
        ("nmpc_ddp/DDPProblem.h", "nmpc_ddp::DDPProblem<%s>", ["4, 2", "4, -1", "4, 0"]),
        ("nmpc_fmpc/FmpcProblem.h", "nmpc_fmpc::FmpcProblem<%s>", ["5, 3, 7", "5, -1, -1", "5, 3, -1", "5, -1, 7", "5, 3, 0"]),
        ("nmpc_fmpc/FmpcSolver.h", "nmpc_fmpc::FmpcSolver<%s>", ["5, 3, 7", "5, 3, -1", "5, -1, 7", "5, -1, -1", "2, 2, 2", "1, 1, 1"])]
ZERO = [("nmpc_fmpc/FmpcSolver.h", "nmpc_fmpc::FmpcSolver<%s>", ["5, 3, 0", "5, 0, 7"]), ("nmpc_ddp/DDPSolver.h", "nmpc_ddp::DDPSolver<%s>", ["4, 0"])]


def inc(repo):
    return ["-I/usr/include/eigen3"] + ["-I%s/%s/include" % (repo, m) for m in ("nmpc_ddp", "nmpc_fmpc", "nmpc_cgmres")]


def syntax(path, repo, cc="clang++"):
    r = subprocess.run([cc, "-std=c++17", "-fsyntax-only", "-w"] + (["-ferror-limit=0"] if cc == "clang++" else []) + inc(repo) + [path], capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if ": error:" in l or ": fatal error:" in l]
    return r.returncode, errs, r.stderr


def compile_ok(ck, repo):
    d = ck.scratch
    jobs = []

    def tu(name, text, key, what):
        p = os.path.join(d, name + ".cpp")
        with open(p, "w") as f:
            f.write(text)
        jobs.append((p, key, what))
    for h in HEADERS:
        tu("alone_" + h.replace("/", "_"), "#include <%s>\n" % h, "alone|" + h, "header <%s> included alone" % h)
    tu("all_fwd", "".join("#include <%s>\n" % h for h in HEADERS), "all|forward", "all public headers in one translation unit")
    tu("all_rev", "".join("#include <%s>\n" % h for h in reversed(HEADERS)), "all|reverse", "all public headers in one translation unit, reverse order")
    tu("twice", "".join("#include <%s>\n#include <%s>\n" % (h, h) for h in HEADERS), "all|twice", "every public header included twice")
    for h, c, ds in INST + ZERO:
        for x in ds:
            tu("inst_" + re.sub(r"\W+", "_", c % x), "#include <%s>\ntemplate class %s;\n" % (h, c % x), "inst|" + c % x, "explicit instantiation of %s" % (c % x))
    tu("src", "#include \"%s/nmpc_cgmres/src/CgmresSolver.cpp\"\n" % repo, "src|cgmres", "CgmresSolver.cpp")
    ccs = ["clang++"] + (["g++"] if ck.tier == "thorough" else [])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: (j[0], syntax(j[0][0], repo, j[1])), [(j, cc) for cc in ccs for j in jobs]))
    ok = 0
    for (p, key, what), (rc, errs, full) in rs:
        if rc == 0:
            ok += 1
            continue
        e = errs[0] if errs else full[-300:]
        m = re.search(r"(%s/\S+?):(\d+):\d+: (?:fatal )?error: (.*)" % re.escape(repo), "\n".join(errs))
        note = re.search(r"(%s/\S+?):(\d+):\d+: note: " % re.escape(repo), full)
        f, l = (m.group(1), m.group(2)) if m else (note.group(1), note.group(2)) if note else ("", 0)
        ck.violate(file=f, line=l, function="", output="compile", detail="%s does not compile: %s" % (what, e.split("error: ")[-1][:200]), key=key)
    # several translation units: no header may define a strong symbol
    p = os.path.join(d, "odr.cpp")
    with open(p, "w") as f:
        f.write("".join("#include <%s>\n" % h for h in HEADERS))
    strong = []
    if not any(v.get("key") == "all|forward" for v in ck.violations):
        o = os.path.join(d, "odr.o")
        r = subprocess.run(["clang++", "-std=c++17", "-w", "-O0", "-c"] + inc(repo) + [p, "-o", o], capture_output=True, text=True)
        if r.returncode == 0:
            n = subprocess.run(["nm", "-C", "--defined-only", o], capture_output=True, text=True).stdout
            strong = [l.split(None, 2)[2] for l in n.splitlines() if len(l.split(None, 2)) == 3 and l.split(None, 2)[1] in "TDBRC"]
            for s in strong:
                ck.violate(file="", line=0, function=s, output="odr", detail="%s is defined in a header without inline: two translation units do not link" % s, key="odr|" + s)
    ck.cov["witnesses"] = {"translation_units": len(rs), "type_checked": ok, "compilers": ccs, "strong_symbols_in_headers": len(strong),
                           "list": [k for _, k, _ in jobs]}


def access(ck, repo):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "witness", "access.cpp")
    rc, errs, full = syntax(os.path.normpath(p), repo)
    src = open(p).read()
    n = len(re.findall(r"^(RESULT|CONFIG|NOACCESS)\(", src, re.M)) + len(re.findall(r"^  (?:\(void\))?[pdf]\.\w+\(", src, re.M))
    bad = []
    for e in errs:
        m = re.search(r"static assertion failed.*?: (.*)$", e)
        bad.append(m.group(1) if m else e.split("error: ")[-1])
    if rc != 0 and not bad:
        bad = [full[-300:]]
    for b in bad:
        ck.violate(file=repo, line=0, function="", output="access", detail=b[:300], key="access|" + b[:120])
    ck.cov["witnesses"] = {"type_level_assertions": n, "failed": len(bad), "file": "witness/access.cpp"}
