"""Whole-module decision: units bottom-up, mismatches of internal functions are carried to their callers (inlined on both
sides) and count only if some public operation still differs from the reference semantics there."""
import re
import time
from . import dag as T, engine as E, ri, core

UNIT_BUDGET = 100.0
# work storage: whatever a solve leaves there is not to be seen by the next one
WORK = re.compile(r"^this\.(k_list_|K_list_|derivative_list_|last_Vx+_|dV_|candidate_control_data_|coeff_list_|delta_variable_|basis_|H_|err_list_)")


class Finding:
    """a confirmed deviation: unit, differing outputs, the public operation in which it is observable"""

    def __init__(self, unit, inst, diffs, public, where):
        self.unit, self.inst, self.diffs, self.public, self.where = unit, inst, diffs, public, where

    def asdict(self):
        return {"function": self.where["function"], "file": self.where["file"], "line": self.where["line"], "instance": list(self.inst),
                "unit": self.unit.id, "outputs": [{"output": n, "detail": d, "extra_reads": [y for y in x if "print_level" not in y], "print_reads": [y for y in x if "print_level" in y]} for n, d, x in self.diffs[:80]],
                "observable_in": self.public}


class Analysis:
    def __init__(self, mod, budget=480.0, seeds=6, log=None):
        self.mod = mod
        self.seeds = seeds
        self.findings = []
        self.undecided = []
        self.benign = []
        self.obl = {"congruent": 0, "equal under valuations": 0, "differ": 0, "undecided": 0}
        self.units = 0
        self.t_end = time.time() + budget
        self.log = log or (lambda *a: None)
        self.st = {}

    def order(self):
        us = self.mod.desc.units
        done, out = set(), []

        def go(u):
            if u.id in done:
                return
            done.add(u.id)
            for a in u.anchors:
                go(self.mod.unit(a))
            out.append(u)
        for u in us:
            go(u)
        return out

    def run(self, want=None):
        """want: predicate on unit ids (their callees and callers are added by the caller of this function)"""
        us = self.order()
        insts = []
        for u in us:
            for i in u.insts:
                if i not in insts:
                    insts.append(i)
        for u in us:
            if want is not None and not want(u):
                continue
            for i in u.insts:
                self.unit(u, i)
        self.settle()

    def timed(self, f):
        T.DEADLINE[0] = min(time.time() + UNIT_BUDGET, self.t_end)
        try:
            return f()
        except (T.Timeout, core.RefError):
            return [("*", "undecided", "time budget")]
        except RecursionError:
            return [("*", "undecided", "recursion")]
        except MemoryError:
            return [("*", "undecided", "memory")]
        except Exception as x:
            return [("*", "undecided", "internal: %r" % (x,))]
        finally:
            T.DEADLINE[0] = None

    def cmp(self, u, inst, inl):
        if time.time() > self.t_end:
            return [("*", "undecided", "time budget")]
        names = None
        if u.public:
            names = lambda n: n in ("throw", "*") or n.startswith(("ret", "stream:", "calls")) or bool(re.search(u.obs, n))
        return self.timed(lambda: self.mod.compare(u, inst, inl, seeds=self.seeds, names=names))

    def live(self, u, inst, inl, a, cells):
        """the outputs of callee a that the observables of u (reference) depend on"""
        s = self.mod.res.get(("spec", u.id, inst, inl))
        if s is None or s.err:
            return set(cells)
        fn = self.mod.unit(a).fn
        used = set()
        for n, (k, b) in s.table().items():
            used |= T.funs(b)
        for evs in s.streams.values():
            for e in evs:
                used |= T.funs(e.pc)
        out = set()
        for c in cells:
            if c in ("throw",) or c.startswith(("stream:", "calls")):
                out.add(c)
                continue
            key = c[4:] if c.startswith("this") else c
            pat = re.compile(r"^%s(/\d+)?(:|\.|$)" % re.escape(fn))
            for f in used:
                if pat.match(f) and (c.startswith(("ret", "arg")) or f.endswith(":" + key) or (":" + key + ".#") in f):
                    out.add(c)
                    break
        return out

    def onesided(self, u, inst, inl):
        """callees whose results are used on one side only"""
        s, i = self.mod.res.get(("spec", u.id, inst, inl)), self.mod.res.get(("impl", u.id, inst, inl))
        if s is None or i is None or s.err or i.err:
            return set()
        out = set()
        fs, fi = (set().union(*[T.funs(b) for _, b in x.table().values()], *[T.funs(e.pc) for evs in x.streams.values() for e in evs]) for x in (s, i))
        for a in u.anchors:
            if a in inl:
                continue
            pat = re.compile(r"^%s(/\d+)?(:|\.|$)" % re.escape(self.mod.unit(a).fn))
            if any(pat.match(f) for f in fs) != any(pat.match(f) for f in fi):
                out.add(a)
        return out

    def unit(self, u, inst):
        mod = self.mod
        t0 = time.time()
        cs = []
        for a in u.anchors:
            mod.cur_inst = inst
            ci = mod.inst_for(mod.unit(a))
            cs.append((a, ci, self.st.get((a, ci))))
        gone = set()
        for a, ci, s in cs:
            if s is not None and s["status"] == "missing":
                gone.add(a)
                gone |= s["gone"]
        gone = frozenset(gone)
        if not mod.comparable(u, inst) and not u.public:
            res = [("*", "missing", "no function with this interface: analysed inside its callers")]
        else:
            res = self.cmp(u, inst, gone)
        diff = [r for r in res if r[1] == "differ"]
        und = [r for r in res if r[1] == "undecided"]
        status = "missing" if any(r[1] == "missing" for r in res) else "bad" if diff else "undecided" if und else "ok"
        for r in res:
            self.obl["congruent" if r[2] == "congruent" else {"same": "equal under valuations", "missing": "undecided"}.get(r[1], r[1])] += 1
        self.units += 1
        # deviations of callees that reach this unit
        roots = {}
        for a, ci, s in cs:
            if s is None or a in gone:
                continue
            for (ra, rci), cells in s["roots"].items():
                if ra == a:
                    lv = self.live(u, inst, gone, a, cells)
                    if lv:
                        roots.setdefault((ra, rci), set()).update(lv)
                else:
                    roots.setdefault((ra, rci), set()).update(cells)
        note = ""
        one = self.onesided(u, inst, gone) if status == "bad" else set()
        if status == "bad" and (roots or one):
            # both a function and its caller deviate, or only one side calls a function: decide them together
            inl = set(gone) | one
            for a, ci, s in cs:
                if s is not None and s["roots"]:
                    inl.add(a)
                    inl |= {x for x, _ in s["roots"]}
            res2 = self.cmp(u, inst, frozenset(inl))
            d2 = [r for r in res2 if r[1] == "differ"]
            note = "together with %s: %s" % (sorted(inl), "differ" if d2 else sorted({r[1] for r in res2}))
            if not d2:
                if any(r[1] == "undecided" for r in res2):
                    self.undecided.append((u.id, inst, "*", note))
                    status = "undecided"
                else:
                    self.benign.append((u.id, inst, sorted(inl)))
                    status = "ok"
                roots, diff = {}, []
        if status == "bad":
            roots[(u.id, inst)] = {r[0] for r in diff}
        self.st[(u.id, inst)] = {"status": status, "gone": gone | (frozenset([u.id]) if status == "missing" else frozenset()), "diff": diff,
                                 "und": und, "roots": roots, "res": res}
        for n, _, d in und:
            self.undecided.append((u.id, inst, n, d))
        self.log("%-22s %-12s %-9s %.1fs %s" % (u.id, inst, status, time.time() - t0, note))
        for r in res:
            if r[1] not in ("same",):
                self.log("      ", r[0], r[1], r[2][:160])

    def settle(self):
        seen = {}
        for u in self.order():
            if not u.public:
                continue
            for inst in u.insts:
                s = self.st.get((u.id, inst))
                if s is None:
                    continue
                if s["status"] == "missing":
                    self.undecided.append((u.id, inst, "*", "public function missing"))
                for (a, ci), cells in s["roots"].items():
                    f = seen.get((a, ci))
                    if f is None:
                        un = self.mod.unit(a)
                        x = self.st[(a, ci)]
                        dl = [(n, d, self.extra(un, ci, n)) for n, k, d in x["res"] if k == "differ" and n in cells]
                        f = seen[(a, ci)] = Finding(un, ci, dl, [], self.where(un, ci))
                        self.findings.append(f)
                    if u.id not in f.public:
                        f.public.append(u.id)

    def where(self, u, inst):
        f = self.mod.I.find(u.cls, u.fn, inst, u.np, u.pick)
        return {"function": f["q"] if f else u.fn, "file": (f or {}).get("file", ""), "line": (f or {}).get("line", 0)}

    def extra(self, u, inst, n):
        """state the code's value depends on and the reference's does not"""
        s = self.mod.res.get(("spec", u.id, inst, frozenset()))
        i = self.mod.res.get(("impl", u.id, inst, frozenset()))
        if s is None or i is None or s.err or i.err or n.startswith("stream:"):
            return []
        a, b = s.table().get(n), i.table().get(n)
        if b is None:
            return []
        sa = T.syms(a[1]) if a is not None else set()
        out = sorted(x for x in T.syms(b[1]) - sa if (x.startswith("this.") and (not x.startswith(("this.config_", "this.problem_")) or "print_level" in x)) or x.startswith((E.UNINIT, "static:", "global:")))
        return out or [x for x in self.timed(lambda: self.mod.leftover(u, inst, n, WORK)) if isinstance(x, str)] if u.id.split(".")[-1] in ("solve", "procOnce", "backwardPass", "forwardPass") else out
