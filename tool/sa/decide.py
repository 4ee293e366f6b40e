"""One module, one property: compare with the reference semantics, scan events, attribute what deviates."""
import json
import time
from . import dag as T, engine as E, core, units, analyse, props, ri

TIERS = {"quick": {"seeds": 6, "budget": 330.0, "evseeds": 4}, "thorough": {"seeds": 24, "budget": 2400.0, "evseeds": 16}}


def prepare(m, tier, impl, spec, seed):
    tr = TIERS[tier]
    ri.SEED[0] = seed
    S, I = E.Program(json.load(open(spec))), E.Program(json.load(open(impl)))
    mod = core.Module(S, I, units.MODULES[m])
    an = analyse.Analysis(mod, budget=tr["budget"], seeds=tr["seeds"])
    an.run()
    return mod, an


def module(pid, m, tier, impl, spec, seed):
    mod, an = prepare(m, tier, impl, spec, seed)
    return judge(pid, m, tier, mod, an)


def judge(pid, m, tier, mod, an):
    p = props.P[pid]
    tr = TIERS[tier]
    viol = []
    for f in an.findings:
        d = f.asdict()
        for o in d["outputs"]:
            if o["detail"].startswith(core.NANTAG) and pid not in props.NANP:
                continue        # shows for NaN or infinite data only, of which this property says nothing
            hit = props.match(pid, f.unit.id, o["output"])
            why = ""
            if not hit and "leftover" in p["extra"] and o["extra_reads"]:
                hit, why = True, "depends on state left from before the call: %s; " % ", ".join(o["extra_reads"][:4])
            if not hit and "nonterm" in p["extra"] and "does not leave" in o["detail"]:
                hit = True
            if not hit and "print" in p["extra"] and any("print_level" in x for x in o["print_reads"]):
                hit, why = True, "the value depends on the print level; "
            if hit:
                viol.append({"file": d["file"], "line": d["line"], "function": d["function"], "instance": d["instance"], "output": o["output"],
                             "detail": "%s%s deviates from the reference semantics: %s" % (why, o["output"], o["detail"]), "observable_in": d["observable_in"],
                             "key": "%s|%s" % (f.unit.id, o["output"])})
    cov = {"functions": [], "obligations": dict(an.obl), "unit_instances": an.units, "valuations": getattr(mod, "nval", 0), "benign_refactorings": [str(x) for x in an.benign]}
    for u in mod.desc.units:
        if any(a.search(u.id) for a, _ in p["pats"]) or p["ev"]:
            for i in u.insts:
                s = an.st.get((u.id, i))
                if s is not None:
                    w = an.where(u, i)
                    cov["functions"].append({"function": w["function"], "instance": list(i), "status": s["status"],
                                             "outputs": sum(1 for r in s["res"] if props.match(pid, u.id, r[0])),
                                             "congruent": sum(1 for r in s["res"] if props.match(pid, u.id, r[0]) and r[2] == "congruent")})
    if p["ev"]:
        cov["events"] = events(mod, an, p["ev"], tr["evseeds"], viol)
    if "print" in p["extra"]:
        from . import prints
        cov["prints"] = prints.scan(mod, an, tr, viol)
    return {"coverage": cov, "violations": viol, "undecided": [list(map(str, x)) for x in an.undecided]}


def events(mod, an, kinds, seeds, viol):
    acc = {"element_access_sites": 0, "element_accesses_evaluated": 0, "model_call_sites": 0, "model_calls_evaluated": 0, "valuations": 0}
    for u in an.order():
        for i in u.insts:
            s = an.st.get((u.id, i))
            if s is None or s["status"] == "missing":
                continue
            x = core.EventScan(mod, u, i, s["gone"])
            T.DEADLINE[0] = min(time.time() + 60, an.t_end + 60)
            changed = any(q[2] != "congruent" for q in s["res"])
            try:
                r = x.run(3 * seeds if changed else seeds)
            except (T.Timeout, RecursionError):
                r = []
                an.undecided.append((u.id, i, "events", "time budget"))
            finally:
                T.DEADLINE[0] = None
            acc["element_access_sites"] += len(x.sites)
            acc["element_accesses_evaluated"] += x.nacc
            acc["model_call_sites"] += len(getattr(x, "csites", ()))
            acc["model_calls_evaluated"] += x.ncall
            acc["valuations"] += x.nval
            for kind, f, l, d in r:
                if kind in kinds:
                    viol.append({"file": f, "line": l, "function": an.where(u, i)["function"], "instance": list(i), "output": kind, "detail": d, "key": "%s|%s|%s" % (u.id, kind, d.split(" (")[0])})
    return acc
