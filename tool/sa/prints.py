"""Writes to standard output or error that are possible with every print level at 0."""
import re
import time
from . import dag as T, ri, core
from .dag import Node

PL = re.compile(r"(^|\.)print_level$")


def kleene(n, memo):
    """three-valued value of a condition with all print levels 0 and everything else unknown (None)"""
    r = memo.get(n, 7)
    if r != 7:
        return r
    k, a = n.k, n.a
    r = None
    if k == "AND":
        vs = [kleene(x, memo) for x in a[0]]
        r = False if False in vs else True if all(v is True for v in vs) else None
    elif k == "OR":
        vs = [kleene(x, memo) for x in a[0]]
        r = True if True in vs else False if all(v is False for v in vs) else None
    elif k == "NOT":
        v = kleene(a[0], memo)
        r = None if v is None else not v
    elif k == "ITE":
        c = kleene(a[0], memo)
        x, y = kleene(a[1], memo), kleene(a[2], memo)
        r = x if c is True else y if c is False else x if x == y else None
    elif k == "EX":
        r = False if kleene(a[2], memo) is False else None
    else:
        r = truth(n, memo)
    memo[n] = r
    return r


def truth(n, memo):
    k, a = n.k, n.a
    if k == "K":
        return a[0] != 0
    if k in ("LT", "LE", "EQ"):
        x, y = num(a[0], memo), num(a[1], memo)
        if k == "LT":
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        if k == "LE":
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        return True if x[0] == x[1] == y[0] == y[1] else False if x[1] < y[0] or y[1] < x[0] else None
    if k in ("IGT", "IEQ", "B"):
        lo, hi = num(a[0], memo)
        if k == "IGT":
            return True if lo > 0 else False if hi <= 0 else None
        z = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        return z if k == "IEQ" or z is None else not z
    return None


INF = float("inf")
TOP = (-INF, INF)


def num(n, memo):
    """interval of an integer quantity at print level 0"""
    key = ("i", n)
    r = memo.get(key)
    if r is None:
        r = memo[key] = num0(n, memo)
    return r


def num0(n, memo):
    k, a = n.k, n.a
    if k == "K":
        return (a[0], a[0])
    if k == "SYM":
        return (0, 0) if PL.search(a[0]) else TOP
    if k == "ADD":
        lo = hi = a[0]
        for t, c in a[1]:
            x, y = num(t, memo)
            x, y = (c * x, c * y) if c > 0 else (c * y, c * x)
            lo, hi = lo + x, hi + y
        return TOP if lo != lo or hi != hi else (lo, hi)
    if k == "MAX":
        vs = [num(x, memo) for x in a[0]]
        return max(v[0] for v in vs), max(v[1] for v in vs)
    if k == "ITE":
        c = kleene(a[0], memo)
        if c is not None:
            return num(a[1] if c else a[2], memo)
        x, y = num(a[1], memo), num(a[2], memo)
        return min(x[0], y[0]), max(x[1], y[1])
    if k == "FUN" and a[0] == "trunc":
        v = num(a[1][0], memo)
        return v if v[0] == v[1] == int(v[0] if abs(v[0]) != INF else 0) else TOP
    if k in ("AND", "OR", "NOT", "LT", "LE", "EQ", "IGT", "IEQ", "B", "EX"):
        c = kleene(n, memo)
        return (0, 1) if c is None else (1, 1) if c else (0, 0)
    return TOP


PLAN = {
    # unit -> callees analysed inside it
    "ddp": [("ddp.solve", ()), ("ddp.procOnce", ()), ("ddp.backwardPass", ("box.solve5", "box.solve4")), ("ddp.forwardPass", ()), ("ddp.ctor", ()), ("ddp.setlim", ()), ("ddp.dump", ()),
            ("box.solve5", ()), ("box.solve4", ()), ("box.ctor", ())],
    "fmpc": [("fmpc.solve", ("fmpc.procOnce", "fmpc.calcKktError", "fmpc.backwardPass", "fmpc.forwardPass", "fmpc.updateVariables", "fmpc.setupMeritFunc", "fmpc.calcMeritFunc",
                             "fmpc.checkVariable")), ("fmpc.ctor", ()), ("fmpc.dump", ()), ("fmpc.var.ctor", ()), ("fmpc.var.reset", ()), ("fmpc.var.nan", ()),
             ("fmpc.coeff.nan", ()), ("fmpc.coeff.ctor3", ()), ("fmpc.coeff.ctor1", ())],
}


def scan(mod, an, tr, viol):
    cov = {"output_sites": 0, "occurrences": 0, "silent_by_guard": 0, "silent_in_valuations": 0, "functions": 0}
    sites = set()
    bad = {}
    t_end = time.time() + 150
    for uid, inl in PLAN[mod.desc.name]:
        u = mod.unit(uid)
        for inst in u.insts:
            gone = an.st.get((uid, inst), {}).get("gone", frozenset())
            mod.cur_inst = inst
            T.DEADLINE[0] = time.time() + 200
            try:
                r = mod.run(mod.I, u, inst, frozenset(inl) | gone)
            finally:
                T.DEADLINE[0] = None
            if r is None or r.err:
                an.undecided.append((uid, inst, "prints", str(r and r.err)))
                continue
            cov["functions"] += 1
            evs = [e for e in r.eng.events if e.kind == "out" and e.data[0] == "std"]
            memo = {}
            todo = []
            for e in evs:
                sites.add(e.where)
                cov["occurrences"] += 1
                if kleene(e.pc, memo) is False or any(kleene(hi, memo) is False for _, hi in e.loops):
                    cov["silent_by_guard"] += 1
                else:
                    todo.append(e)
            for e in todo:
                parts = [c for c in (e.pc.a[0] if e.pc.k == "AND" else (e.pc,)) if any(PL.search(s) for s in T.syms(c))]
                mention = any(kleene(c, memo) is not True for c in parts)
                hit = None if mention else "no print-level test guards it" if not parts else "the print-level tests that guard it hold at level 0"
                if mention and time.time() > t_end:
                    an.undecided.append((uid, inst, "prints", "time budget: %s" % (e.where,)))
                elif mention:
                    T.DEADLINE[0] = t_end
                    hit = active(mod, u, inst, r, e, tr["evseeds"])
                    T.DEADLINE[0] = None
                    if hit is None:
                        cov["silent_in_valuations"] += 1
                if hit:
                    bad.setdefault(e.where, (uid, inst, hit))
    for w, (uid, inst, hit) in bad.items():
        viol.append({"file": w[0], "line": w[1], "function": w[2], "instance": list(inst), "output": "print",
                     "detail": "writes to standard output or error with print level 0 (reached in %s): %s" % (uid, hit), "key": "%s|print" % w[2]})
    cov["output_sites"] = len(sites)
    return cov


def active(mod, u, inst, r, e, seeds):
    x = core.EventScan(mod, u, inst)
    for q in range(seeds):
        for mode in u.modes:
            pf = mod.desc.profile(mod, u, inst)
            pf.forced = Zero()
            v = ri.Val("%s.%d" % (u.id, q), mode, pf)
            try:
                for _ in x.active(v, [e]):
                    return "valuation %s/%s" % (v.seed, mode)
            except ri.Discard:
                continue
            except T.Timeout:
                return None
    return None


class Zero(dict):
    def __contains__(self, p):
        return bool(PL.search(p))

    def __getitem__(self, p):
        return 0
