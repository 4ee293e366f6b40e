"""Loop summaries: one symbolic iteration over open variables (PHI) is closed into recurrences, sums and trip counts."""
from . import dag as T
from .dag import (const, ZERO, ONE, TRUE, FALSE, PL, PHI, LAM, RV, add, sub, mul, neg, scale, ite, band, bor, bnot, igt, eq,
                  exists, first, sum_over, subst, is_const, gensym, MAXN, FUN)

MAXPASS = 12


class Loops:
    # each s_* builds an iteration closure: it() executes one iteration from the current state and returns
    # (next_state_list [(pc, st)], exits [(pc, st)])
    def s_for(self, s):
        if s.get("init"):
            self.ex(s["init"])

        def it():
            if s.get("cv"):
                self.declare(s["cv"])
            g = self.cond(self.ev(s["c"])) if s.get("c") is not None else TRUE
            exits = []
            if self.pc is FALSE:
                return [], []
            ng = bnot(g)
            if ng is not FALSE:
                exits.append((band(self.pc, ng), self.st.copy()))
            self.pc = band(self.pc, g)
            self.body(s["b"])
            if self.pc is not FALSE and s.get("inc") is not None:
                self.ev(s["inc"])
            return [(self.pc, self.st)], exits
        self.loop(s, it)

    def s_while(self, s):
        self.s_for({"k": "for", "init": None, "cv": s.get("cv"), "c": s.get("c"), "inc": None, "b": s["b"], "l": s.get("l"), "_id": id(s)})

    def s_do(self, s):
        def it():
            self.body(s["b"])
            if self.pc is FALSE:
                return [], []
            pb = self.pc
            c = self.cond(self.ev(s["c"]))
            st = self.st
            return [(band(pb, c), st)], [(band(pb, bnot(c)), st.copy())]
        self.loop(s, it)

    def s_rfor(self, s):
        from .engine import LV, Agg, Num, Opq
        r = self.ev(s["r"])
        if isinstance(r, Opq) and isinstance(r.n, tuple) and r.n[0] == "list":
            self.unrolled(s, r.n[1])
            return
        if isinstance(r, (Agg, Num)):
            r = self.materialise(r, s["r"]["t"], "range")
        k = self.ty.kind(r.t) if isinstance(r, LV) else ("?",)
        if k[0] not in ("vec", "arr", "ten"):
            from .engine import Unsup
            raise Unsup("range-for")
        n = self.vsize(r) if k[0] != "ten" else mul(*self.dims(r))
        ctr = LV(self.fresh("rng"), (), None)
        self.reg(ctr.path, ("num", "i"))
        self.write(ctr.path, (), ("num", "i"), ZERO)
        v = s["v"]

        def it():
            i = self.read(ctr.path, (), ("num", "i"))
            g = igt(sub(n, i))
            exits = [(band(self.pc, bnot(g)), self.st.copy())]
            self.pc = band(self.pc, g)
            el = self.elem(r, i) if k[0] != "ten" else self.coeff(r, [Num(i, "i")])
            env = self.frames[-1].env
            if self.ty.isref(v["t"]):
                env[v["id"]] = el
            else:
                env[v["id"]] = self.materialise(self.load(el), v["t"], v["n"])
            if v.get("bind"):
                self.bindings(v, env[v["id"]])
            self.body(s["b"])
            self.write(ctr.path, (), ("num", "i"), add(self.read(ctr.path, (), ("num", "i")), ONE))
            return [(self.pc, self.st)], exits
        self.loop(s, it)

    def unrolled(self, s, items):
        self.loopstack.append({"breaks": [], "conts": []})
        brk = []
        for x in items:
            ctx = self.loopstack[-1] = {"breaks": [], "conts": []}
            env = self.frames[-1].env
            v = s["v"]
            env[v["id"]] = self.materialise(x, v["t"], v["n"])
            self.ex(s["b"])
            outs = list(ctx["conts"])
            brk += ctx["breaks"]
            if self.pc is not FALSE:
                outs.append((self.pc, self.st))
            if not outs:
                self.pc = FALSE
                break
            self.join(outs)
        self.loopstack.pop()
        if brk:
            if self.pc is not FALSE:
                brk.append((self.pc, self.st))
            self.join(brk)

    def body(self, b):
        """loop body with continue statements joined at its end"""
        ctx = self.loopstack[-1]
        self.ex(b)
        outs = ctx["conts"]
        ctx["conts"] = []
        if self.pc is not FALSE:
            outs = outs + [(self.pc, self.st)]
        self.join(outs)

    # ------------------------------------------------------------ the summary
    def loop(self, s, it):
        st0, pc0 = self.st, self.pc
        fr = self.frames[-1]
        rets0, thr0, ev0 = fr.rets, self.throws, self.events
        uid0, env0 = self.uid, fr.env
        key = (s.get("_id") or id(s), tuple(f.fn["id"] if f.fn and "id" in f.fn else 0 for f in self.frames))
        W = set(p for p in self.wcache.get(key, ()) if p in st0.c or not p.startswith("$"))
        W = set(p for p in W if p in self.shape)
        self.nloop += 1
        lid = "L%d" % self.nloop
        nv = gensym("n")
        for npass in range(MAXPASS):
            self.uid = uid0
            fr.env = dict(env0)
            fr.rets, self.throws, self.events = [], [], []
            ctx = {"breaks": [], "conts": []}
            self.loopstack.append(ctx)
            self.st = st0.copy()
            self.pc = TRUE
            for p in W:
                self.st.c[p] = PHI(lid, p, self.shape[p])
            start = dict(self.st.c)
            nxt, exits = it()
            self.loopstack.pop()
            nxt = [(p, x) for p, x in nxt if p is not FALSE]
            grew = False
            states = [x for _, x in nxt]
            for x in states:
                for p, b in x.c.items():
                    if p in W:
                        continue
                    o = start.get(p)
                    if o is None:
                        if p.startswith("$"):
                            continue
                        o = self.initial(p)
                    if b is not o:
                        W.add(p)
                        grew = True
            if not grew:
                break
        else:
            from .engine import Unsup
            raise Unsup("loop summary did not stabilise")
        self.wcache[key] = frozenset(W)
        rets, throws, events = fr.rets, self.throws, self.events
        fr.rets, self.throws, self.events = rets0, thr0, ev0
        fr.env = env0
        exits = [(p, x) for p, x in exits + ctx["breaks"] if p is not FALSE]
        if len(nxt) > 1:
            self.join(nxt)
            nxt = [(self.pc, self.st)]
        if not nxt:
            # the body never continues: at most one (partial) iteration
            self.nopass(st0, pc0, lid, W, nv, exits, rets, throws, events, fr)
            return
        cont, stn = nxt[0]
        inits = {p: st0.c.get(p) if p in st0.c else self.initial(p) for p in W}
        nexts = {p: stn.c.get(p, PHI(lid, p, self.shape[p])) for p in W}
        V = self.close_cells(lid, nv, W, inits, nexts)

        def at(n):
            return {nv: n, RV(lid): lambda p, idxs: V[p](n, idxs)}
        # trip count
        contn = subst(cont, at(nv))
        T_ = self.trip(nv, contn)
        end = at(T_)
        here = at(nv)
        memo = {}
        outs = []
        for p, x in exits:
            outs.append((subst(p, end), self.close_state(x, st0, end, W)))
        for p, x, v, d in rets:
            q = subst(p, end)
            if q is FALSE:
                continue
            fr.rets.append((band(pc0, q), self.close_state(x, st0, end, W), self.close_val(v, end), d))
        tt = FALSE
        for p, ty, w in throws:
            q = subst(p, end)
            tt = bor(tt, q)
            if q is not FALSE:
                self.throws.append((band(pc0, q), ty, w))
        hi = add(T_, ONE)
        for ev in events:
            ev.pc = band(pc0, subst(ev.pc, here))
            ev.data = self.close_any(ev.data, here)
            ev.loops = [(nv, hi)] + [(v, subst(t, here)) for v, t in ev.loops]
            self.events.append(ev)
        if not self.dry:
            self.looplog.append({"where": ((fr.fn or {}).get("file", ""), s.get("l"), (fr.fn or {}).get("q", "")), "trip": T_, "pc": pc0,
                                 "cells": len(W), "unbounded": T_.k == "FIRST" and T_.a[1] is None})
        outs = [(p, x) for p, x in outs if p is not FALSE]
        if not outs:
            self.pc = FALSE
            self.st = st0
            return
        esc = FALSE
        for p, x, v, d in rets:
            esc = bor(esc, subst(p, end))
        esc = bor(esc, tt)
        if len(outs) == 1:
            self.st = outs[0][1]
        else:
            self.join(outs)
        self.pc = band(pc0, bnot(esc))

    def nopass(self, st0, pc0, lid, W, nv, exits, rets, throws, events, fr):
        mp = {nv: ZERO, RV(lid): lambda p, idxs: subst(st0.c.get(p) if p in st0.c else self.initial(p), dict(zip(self.shape[p], idxs)))}
        for p, x, v, d in rets:
            q = subst(p, mp)
            if q is not FALSE:
                fr.rets.append((band(pc0, q), self.close_state(x, st0, mp, W), self.close_val(v, mp), d))
        for p, ty, w in throws:
            q = subst(p, mp)
            if q is not FALSE:
                self.throws.append((band(pc0, q), ty, w))
        for ev in events:
            ev.pc = band(pc0, subst(ev.pc, mp))
            ev.data = self.close_any(ev.data, mp)
            self.events.append(ev)
        outs = [(subst(p, mp), self.close_state(x, st0, mp, W)) for p, x in exits]
        outs = [(p, x) for p, x in outs if p is not FALSE]
        if not outs:
            self.pc = FALSE
            self.st = st0
            return
        self.join(outs)
        self.pc = band(pc0, self.pc)

    def close_state(self, x, st0, mp, W):
        from .engine import St
        out = St({}, dict(x.o))
        for p, b in x.c.items():
            if p.startswith("$") and p not in st0.c:
                if RV not in b.fv and b.fv.isdisjoint(mp):
                    out.c[p] = b
                    continue
                out.c[p] = subst(b, mp)
                continue
            out.c[p] = subst(b, mp)
        return out

    def close_val(self, v, mp):
        return self.close_any(v, mp)

    def close_any(self, v, mp):
        from . import engine as E
        if v.__class__ is T.Node:
            return subst(v, mp)
        if isinstance(v, tuple):
            return tuple(self.close_any(x, mp) for x in v)
        if isinstance(v, list):
            return [self.close_any(x, mp) for x in v]
        if isinstance(v, E.Num):
            return E.Num(subst(v.b, mp), v.ty, None if v.r is None else subst(v.r, mp), None if v.c is None else subst(v.c, mp), v.arr, v.al)
        if isinstance(v, E.Agg):
            return E.Agg(v.t, {r: subst(b, mp) for r, b in v.lv.items()}, v.ob)
        if isinstance(v, E.LV):
            w = v.view
            if w is not None:
                w = E.View(*[subst(x, mp) if x.__class__ is T.Node else x for x in (w.r, w.c, w.bi, w.bj, w.vi, w.vj, w.mem)], w.scalar, w.arr)
            return E.LV(v.path, tuple(subst(x, mp) for x in v.idx), v.t, w, v.noalias)
        return v

    # ------------------------------------------------------------ closed forms
    def close_cells(self, lid, nv, W, inits, nexts):
        V = {}
        R = RV(lid)
        deps = {}
        for p in W:
            deps[p] = {x.a[1] for x in T.walk(nexts[p]) if x.k == "PHI" and x.a[0] == lid} if R in nexts[p].fv else set()
        # tarjan
        order = []
        idx, low, onst, stack = {}, {}, set(), []
        cnt = [0]

        def sc(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            onst.add(v)
            for w in sorted(deps[v]):
                if w not in idx:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                order.append(sorted(comp))
        for p in sorted(W):
            if p not in idx:
                sc(p)

        def mkfun(ids, body):
            def f(n, xs):
                mp = dict(zip(ids, xs))
                mp[nv] = n
                return subst(body, mp)
            return f
        for comp in order:
            cs = set(comp)

            def ph(p, xs):
                if p in cs:
                    return PHI(lid, p, xs)
                return V[p](nv, xs)
            nx = {p: subst(nexts[p], {R: ph}) for p in comp}
            if len(comp) == 1:
                p = comp[0]
                ids = self.shape[p]
                own = PHI(lid, p, ids)
                b, i0 = nx[p], inits[p]
                if b is own or b is i0 and R not in b.fv and nv not in b.fv:
                    V[p] = mkfun(ids, i0)
                    continue
                if R not in b.fv:
                    V[p] = mkfun(ids, ite(eq(nv, ZERO, True), i0, subst(b, {nv: sub(nv, ONE)})))
                    continue
                d = sub(b, own)
                if R not in d.fv:
                    if nv not in d.fv:
                        V[p] = mkfun(ids, add(i0, mul(nv, d)))
                    else:
                        m = gensym("m")
                        V[p] = mkfun(ids, add(i0, sum_over(m, nv, subst(d, {nv: m}))))
                    continue
                r = self.last_write(nv, own, b, i0, R)
                if r is not None:
                    V[p] = mkfun(ids, r)
                    continue
            g = T.close_mug(lid, comp, [LAM(list(self.shape[p]), inits[p]) for p in comp],
                            [LAM(list(self.shape[p]), nx[p]) for p in comp], nv)
            for i, p in enumerate(comp):
                V[p] = (lambda g, i: lambda n, xs: T.MU(g, i, n, xs))(g, i)
        return V

    def last_write(self, nv, own, b, i0, R):
        """next = w ? val : previous, written at a unique iteration: solved for that iteration"""
        if b.k != "ITE":
            return None
        if b.a[2] is own and R not in b.a[0].fv and R not in b.a[1].fv:
            w, val = b.a[0], b.a[1]
        elif b.a[1] is own and R not in b.a[0].fv and R not in b.a[2].fv:
            w, val = bnot(b.a[0]), b.a[2]
        else:
            return None
        for l in T.conj(w):
            if l.k == "IEQ" and nv in l.fv:
                e = solve(l.a[0], nv)
                if e is not None:
                    c = band(T.ge0(e, True), igt(sub(nv, e)))
                    return ite(band(c, subst(w, {nv: e})), subst(val, {nv: e}), i0)
        if nv not in w.fv and nv not in val.fv:
            return ite(band(igt(nv), w), val, i0)
        if val is TRUE and i0 is FALSE:
            m = gensym("m")
            return exists(m, nv, subst(w, {nv: m}))
        m = gensym("m")
        f = first(m, nv, subst(w, {nv: sub(sub(nv, ONE), m)}))
        return ite(igt(sub(nv, f)), subst(val, {nv: sub(sub(nv, ONE), f)}), i0)

    def trip(self, nv, cont):
        bound = None
        rest = TRUE
        for l in T.conj(cont):
            b = None
            if l.k == "IGT" and nv in l.fv:
                c, d = T._terms(l.a[0])
                k = d.get(nv)
                if k is not None and k < 0 and k.denominator == 1:
                    o = add(l.a[0], scale(nv, -k))
                    if nv not in o.fv:
                        # o + k*nv > 0  <=>  nv < ceil(o / -k)
                        b = MAXN([o, ZERO]) if k == -1 else MAXN([FUN("idiv", (add(o, const(-k - 1)), const(-k))), ZERO])
            elif l.k == "NOT" and l.a[0].k == "IEQ" and nv in l.fv:
                e = solve(l.a[0].a[0], nv)
                if e is not None:
                    b = MAXN([e, ZERO])
            if b is not None and bound is None:
                bound = b
            elif b is not None:
                bound = T.MINN([bound, b])
            else:
                rest = band(rest, l)
        if rest is TRUE and bound is not None:
            return bound
        return first(nv, bound, bnot(rest))


def solve(x, v):
    """linear integer equation x == 0 for v (coefficient +-1)"""
    c, d = T._terms(x)
    k = d.get(v)
    if k in (1, -1):
        o = sub(x, scale(v, k))
        if v not in o.fv:
            return scale(o, -1 / k)
    return None
