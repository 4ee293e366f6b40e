"""Comparison of the analysed program with the reference semantics, unit by unit."""
import json
import re
import sys
import time
from . import dag as T, engine as E, ri
from .dag import PI, PJ, PL, TRUE, FALSE, Node

import os
FORCE = bool(os.environ.get("SA_FORCE"))
IGNORE = ("computation_duration_", ".duration_", "TIME")
SEP_BUDGET = 40.0
NANTAG = "not-a-number "        # differences that show only when some value is NaN or infinite


def ignored(path):
    return any(x in path for x in IGNORE)


class Outcome:
    """what a unit computes: cells, return value, throw condition, events"""

    def __init__(self, eng, fn, val):
        self.eng, self.fn = eng, fn
        self.cells = {p: b for p, b in eng.st.c.items() if not p.startswith("$") and not ignored(p)}
        self.ret = []
        v = val
        if isinstance(v, E.LV):
            v = eng.load(v)
        if isinstance(v, E.Num):
            self.ret.append(("", ("num", v.ty) if v.scalar else ("ten", -1, -1, v.arr, v.ty), v.b))
            if not v.scalar:
                self.ret.append((".#r", ("num", "i"), v.r))
                self.ret.append((".#c", ("num", "i"), v.c))
        elif isinstance(v, E.Agg):
            for rel, lk in eng.ty.leaves(v.t):
                if rel in v.lv and lk[0] != "obj":
                    self.ret.append((rel, lk, v.lv[rel]))
        thr = FALSE
        for pc, ty, w in eng.throws:
            thr = T.bor(thr, pc)
        self.throw = thr
        self.streams = {}
        for ev in eng.events:
            if ev.kind == "out" and ev.data[0] == "file":
                self.streams.setdefault(ev.data[1], []).append(ev)
        # by-value parameters are not outputs
        t = eng.ty
        byval = ["arg%d" % i for i, p in enumerate(fn["params"]) if not t.nonconst_ref(p["t"]) and not t.name(p["t"]).startswith("Eigen::Ref")]
        for a in byval:
            for p in [p for p in self.cells if p == a or p.startswith(a + ".") or p.startswith(a + "[")]:
                del self.cells[p]

    def table(self):
        """{name: (kind, node)}"""
        out = {}
        for p, b in self.cells.items():
            out[p] = (self.eng.kindof[p], b)
        for rel, k, b in self.ret:
            out["ret" + rel] = (k, b)
        out["throw"] = (("num", "b"), self.throw)
        return out


def fn_sig(prog, f):
    t = prog.types

    def nm(x):
        s = t.strip(x)
        y = t.t[s]
        def a(y):
            return y.get("n", y["k"]) + str([(z.get("i"), a(t.t[z["t"]]) if z.get("t") is not None else "") for z in y.get("a", [])])
        return a(y) + ("&" if t.nonconst_ref(x) else "")
    return tuple(nm(p["t"]) for p in f["params"]) + (nm(f["ret"]) if f.get("ret") is not None else "",)


class Side:
    """one program (implementation or reference)"""

    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.canon = {}

    def find(self, cls, fn, targs, np=None, pick=None):
        fs = self.prog.find("%s::%s" % (cls, fn), targs or None)
        fs = [f for f in fs if f.get("body") is not None and (np is None or len(f["params"]) == np)]
        if pick is not None:
            fs = [f for f in fs if pick(self.prog, f)]
        return fs[0] if fs else None


class RefError(Exception):
    pass


class Module:
    def __init__(self, spec, impl, desc):
        self.S, self.I = Side(spec, "spec"), Side(impl, "impl")
        self.desc = desc                    # opaque classes, units, profile factory
        self.units = {(u.id, i): u for u in desc.units for i in u.insts}
        self.anc = {}
        self.res = {}
        self.wit = {}
        self.alpha = ri.Alpha()
        self.log = []
        self.canon_members()

    # members renamed in the implementation are matched by type, in declaration order
    def canon_members(self):
        st, it = self.S.prog.types, self.I.prog.types
        srec, irec = {}, {}
        for prog, rec in ((self.S.prog, srec), (self.I.prog, irec)):
            for r in prog.records:
                n = prog.types.name(r["t"])
                rec.setdefault(n, []).append(r)
        for n, rs in irec.items():
            if n not in srec:
                continue
            si = {f["n"]: f for r in srec[n] for f in r["fields"]}
            for r in rs:
                ii = {f["n"]: f for f in r["fields"]}
                gone = [x for x in si if x not in ii]
                new = [x for x in ii if x not in si]
                if not gone or not new:
                    continue
                for x in gone:
                    kx = self.tkey(self.S.prog, si[x]["t"])
                    for y in new:
                        if (n, y) not in self.I.canon and self.tkey(self.I.prog, ii[y]["t"]) == kx:
                            self.I.canon[(n, y)] = x
                            break

    def tkey(self, prog, t):
        ty = prog.types
        x = ty.t[ty.strip(t)]
        return (x["k"], x.get("n"), tuple((str(a.get("i")), self.tkey(prog, a["t"]) if a.get("t") is not None else None) for a in x.get("a", []))
                if x["k"] == "rec" else None)

    def engine(self, side, unit, inl):
        T._gs[0] = 0
        anchors = {}
        for a in unit.anchors:
            if a in inl:
                continue
            c = self.contract(a, unit)
            if c is not None:
                anchors[c["key"]] = c
        en = E.Engine(side.prog, anchors=anchors, opaque_classes=self.desc.opaque if unit.opaque is None else unit.opaque, canon=side.canon)
        if unit.prep:
            unit.prep(self, side, en)
        return en

    def run(self, side, unit, inst, inl=frozenset()):
        key = (side.name, unit.id, inst, inl)
        r = self.res.get(key)
        if r is None:
            fn = side.find(unit.cls, unit.fn, inst, unit.np, unit.pick)
            if fn is None:
                return None
            t0 = time.time()
            try:
                en = self.engine(side, unit, inl)
                self.cur_inst = inst
                v = en.run_root(fn)
                r = Outcome(en, fn, v)
                r.err = None
            except (E.Unsup, T.Timeout, RecursionError) as x:
                r = Outcome.__new__(Outcome)
                r.err = repr(x)
                r.fn = fn
            r.time = time.time() - t0
            self.res[key] = r
        return r

    def unit(self, uid):
        for u in self.desc.units:
            if u.id == uid:
                return u

    def comparable(self, u, inst):
        sf = self.S.find(u.cls, u.fn, inst, u.np, u.pick)
        im = self.I.find(u.cls, u.fn, inst, u.np, u.pick)
        return sf is not None and im is not None and fn_sig(self.S.prog, sf) == fn_sig(self.I.prog, im)

    def contract(self, uid, caller):
        """call contract of a unit: read and write sets of the reference"""
        u = self.unit(uid)
        inst = self.inst_for(u)
        key = (uid, inst)
        if key in self.anc:
            return self.anc[key]
        sf = self.S.find(u.cls, u.fn, inst, u.np, u.pick)
        im = self.I.find(u.cls, u.fn, inst, u.np, u.pick)
        c = None
        if sf is not None and im is not None and fn_sig(self.S.prog, sf) == fn_sig(self.I.prog, im):
            save = self.cur_inst if hasattr(self, "cur_inst") else None
            r = self.run(self.S, u, inst)
            self.cur_inst = save
            if r is not None and r.err is None:
                reads = {}
                ko = r.eng.kindof
                names = set()
                for _, (k, b) in r.table().items():
                    names |= T.syms(b)
                for p, b in r.cells.items():
                    if b is not None:
                        names.add(p) if self.partial(b, p) else None
                for n in names:
                    if n.startswith("this.") and not ignored(n):
                        self.addread(reads, n, ko, r.eng)
                writes = [(p[4:], ko[p]) for p in sorted(r.cells) if p.startswith("this.")]
                outs = [i for i, p in enumerate(u.outs)] and list(u.outs)
                c = {"name": u.fn, "key": ("::".join((u.cls + "::" + u.fn).split("::")[-2:]), len(sf["params"])),
                     "reads": sorted(reads.items()), "writes": writes, "outs": list(u.outs), "skip_args": tuple(u.outs),
                     "throws": "throw" if r.throw is not FALSE else None, "unit": uid}
        self.anc[key] = c
        return c

    def partial(self, b, p):
        return p in T.syms(b)

    def addread(self, reads, n, ko, eng):
        if n not in ko:
            return
        reads[n[4:]] = ko[n]
        # sizes of everything it is indexed by
        i = n.find("[]")
        while i >= 0:
            q = n[:i] + ".#n"
            if q in ko:
                reads[q[4:]] = ko[q]
            i = n.find("[]", i + 2)
        for s in (".#r", ".#c"):
            if n + s in ko:
                reads[n[4:] + s] = ko[n + s]

    def inst_for(self, u):
        ci = getattr(self, "cur_inst", None)
        if ci in u.insts:
            return ci
        f = self.desc.inst_map
        x = f(u, ci) if f else None
        return x if x is not None else u.insts[0]

    # ------------------------------------------------------------ comparison
    def compare(self, unit, inst, inl=frozenset(), seeds=6, names=None):
        """-> list of (output name, status, detail); status: same | differ | undecided"""
        self.cur_inst = inst
        s = self.run(self.S, unit, inst, inl)
        self.cur_inst = inst
        i = self.run(self.I, unit, inst, inl)
        if s is None or s.err:
            raise RefError("reference unit %s: %s" % (unit.id, s and s.err))
        if i is None:
            return [("*", "missing", "function not found")]
        if i.err:
            return [("*", "undecided", i.err)]
        st, it = s.table(), i.table()
        out = []
        todo = []
        for n in sorted(set(st) | set(it)):
            if names is not None and not names(n):
                continue
            sk, sb = st.get(n, (None, None))
            ik, ib = it.get(n, (None, None))
            if sb is None:
                if n not in i.eng.kindof:
                    continue
                # written by the implementation only: a scratch member the reference does not have is not compared
                if n not in s.eng.kindof:
                    continue
                sk, sb = ik, s.eng.initial(n) if n in s.eng.shape else None
                if sb is None:
                    continue
            if ib is None:
                if n.startswith("ret") or n not in i.eng.shape:
                    out.append((n, "undecided" if i.eng.lost else "differ", "output missing"))
                    continue
                ik, ib = sk, i.eng.initial(n)
            if not FORCE and (ib is sb or self.alpha.eq(sb, ib)):
                out.append((n, "same", "congruent"))
                continue
            if i.eng.lost:
                out.append((n, "undecided", "unmodelled effect: %s" % i.eng.lost[0]))
                continue
            if (ib.mark | sb.mark) & T.MARK_UNK:
                out.append((n, "undecided", "unmodelled construct: %s" % sorted(T.unknowns(ib))[:3]))
                continue
            todo.append((n, sk, sb, ib))
        for n in sorted(set(s.streams) | set(i.streams)):
            if names is not None and not names("stream:" + n):
                continue
            a, b = s.streams.get(n, []), i.streams.get(n, [])
            if not FORCE and len(a) == len(b) and all(self.ev_eq(x, y) for x, y in zip(a, b)):
                out.append(("stream:" + n, "same", "congruent"))
            elif i.eng.lost:
                out.append(("stream:" + n, "undecided", "unmodelled effect: %s" % i.eng.lost[0]))
            else:
                todo.append(("stream:" + n, ("stream",), a, b))
        # a member stream that the function opened is closed again: otherwise the file is not complete on return and the next open fails
        for n in sorted(set(s.streams) | set(i.streams)):
            if names is None or names("stream:" + n):
                left = lambda o: any(e.kind == "mopen" and e.data[0] == n for e in o.eng.events) and not any(e.kind == "mclose" and e.data[0] == n for e in o.eng.events)
                if left(i) and not left(s):
                    out = [r for r in out if r[0] != "stream:" + n]
                    todo = [r for r in todo if r[0] != "stream:" + n]
                    out.append(("stream:" + n, "differ", "the file is not closed before the function returns"))
        if todo:
            out += self.separate(unit, inst, s, i, todo, seeds)
        return out

    def ev_eq(self, x, y):
        if x.loops != y.loops or x.pc is not y.pc:
            return False

        def eq(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
            return a is b or (not isinstance(a, Node) and a == b)
        return eq(x.data, y.data)

    def tokens(self, v, evs):
        """the token sequence written to a stream under a valuation"""
        out = []

        def text(s):
            if out and isinstance(out[-1], str):
                out[-1] += s
            elif s:
                out.append(s)

        def emit(item, e):
            k = item[0]
            if k == "num":
                out.append(v.ev(item[1], e))
            elif k == "ten":
                r, c = v.rng(item[2], e), v.rng(item[3], e)
                csep, rsep, rpre, rsuf, mpre, msuf = item[4]
                text(mpre)
                for a in range(r):
                    text(rpre)
                    for b in range(c):
                        e2 = dict(e)
                        e2[PI], e2[PJ] = a, b
                        out.append(v.ev(item[1], e2))
                        text(csep if b + 1 < c else "")
                    text(rsuf)
                    text(rsep if a + 1 < r else "")
                text(msuf)
            else:
                text({"std::endl": "\n", "std::flush": "", "std::ends": "\0"}.get(item[1], "<%s>" % (item[1],)) if k == "manip" else \
                    str(item[1]) if k == "str" else "<%s>" % (item,))

        def seq(evs, d, e):
            q = 0
            while q < len(evs):
                ev = evs[q]
                if len(ev.loops) <= d:
                    if v.ev(ev.pc, e):
                        emit(ev.data[2], e)
                    q += 1
                    continue
                nv, hi = ev.loops[d]
                z = q
                while z < len(evs) and len(evs[z].loops) > d and evs[z].loops[d][0] is nv:
                    z += 1
                for t in range(v.rng(hi, e)):
                    e2 = dict(e)
                    e2[nv] = t
                    seq(evs[q:z], d + 1, e2)
                q = z
        seq(evs, 0, {})
        return out

    def sep_stream(self, v, a, b):
        x, y = self.tokens(v, a), self.tokens(v, b)
        for q in range(max(len(x), len(y))):
            p = x[q] if q < len(x) else "<end>"
            r = y[q] if q < len(y) else "<end>"
            if isinstance(p, str) != isinstance(r, str) or (p != r if isinstance(p, str) else not ri.same(p, r)):
                return "token %d: reference writes %r, code %r" % (q, p, r)
        return None

    def plans(self, unit, inst, s, i, left, seeds):
        """valuations for the non-congruent outputs: generic ones, ones on decision boundaries, perturbed ones; then those with NaN"""
        base = {}

        def val(q, mode):
            return ri.Val("%s.%d" % (unit.id, q), mode, self.desc.profile(self, unit, inst))

        def rec(q):
            """the free symbols, model results and comparisons the outputs depend on under a generic valuation"""
            if q not in base:
                v = val(q, "gen")
                v.cmps, v.funs = {}, set()
                v.ind = q % 3 == 2
                try:
                    self.sep_all(v, s, left, dry=True)
                except (ri.Discard, ValueError, OverflowError):
                    pass
                sy = {}
                for (p, idx), r in v.symc.items():
                    if r.__class__ is float and not p.startswith(E.UNINIT):
                        sy.setdefault(p, []).append(idx)
                fu = {}
                for nm, idx in v.funs:
                    fu.setdefault(nm, []).append(idx)
                for d in (sy, fu):
                    for x in d.values():
                        x.sort(key=repr)
                hot, cold = [], []
                for k, d in v.cmps.items():
                    for nd, o in d.items():
                        (hot if nd in dn else cold).append((k, o))
                base[q] = (v, sy, fu, sorted(set(cold), key=repr), sorted(set(hot), key=repr))
            return base[q]

        def poked(q, key, f):
            v = val(q, "gen")
            v.ind = q % 3 == 2
            v.poke = {k: f for k in key}
            return v

        def choose(v, xs, *tag):
            return xs[int(v.rnd("poke", *tag) * len(xs))] if xs else None

        def dist(v, nodes):
            v.watch = {n: [] for n in nodes}
            try:
                self.sep_all(v, s, left, dry=True)
            except (ri.Discard, ValueError, OverflowError):
                pass
            w, v.watch = v.watch, None
            return w

        def cross(q):
            """valuations that bring a comparison occurring in one graph only close to its threshold, from either side"""
            nodes = sorted((n for n in dn if n.k in ("LT", "LE", "EQ")), key=lambda n: (T.size(n), repr(n.a)[:300]))[:60]
            if not nodes:
                return
            # the valuation in which most of them are met
            tries = [(dist(poked(k, [], None), nodes), k) for k in (q, q + 1000, q + 2000)]
            w0, q = max(tries, key=lambda t: sum(1 for x in t[0].values() if x))
            b, sy, fu, cm, hot = rec(q)
            for j in range(2):
                c = choose(b, hot, "xtie", j)
                if c is not None:
                    v = poked(q, [c[0]], lambda v, r, xs, c=c[1]: c)
                    v.tie = True
                    yield "tie %s%s" % (c[0][1], list(c[0][2])), v
            keys = [("s", p, x) for p in sorted(sy) if free.ruled(p) is None and "config_" not in p for x in sy[p][:6]]
            keys += [("f", p, x) for p in sorted(fu) if free.ruled("this" + p.split(":", 1)[1] if ":" in p else p) is None and (p == "calcKktError:ret" or not any(re.search(r, p) for r, _ in free.frules)) for x in fu[p][:6]]
            fin = [n for n in nodes if w0[n] and all(abs(d) < ri.INF for d in w0[n]) and any(w0[n])]
            for j in range(3):
                n = choose(b, fin, "cross", j)
                if n is None:
                    return
                o = int(b.rnd("cross", "o", j) * len(w0[n]))
                d0 = w0[n][o]
                if not d0:
                    continue
                own = T.syms(n) | T.funs(n)
                ks = [k for k in keys if k[1] in own] or keys
                for t in range(3):
                    k = choose(b, ks, "cross", j, t)
                    if k is None:
                        return
                    at = lambda h, k=k: poked(q, [k], lambda v, r, xs, h=h: r + h)
                    h1 = 0.25
                    w1 = dist(at(h1), [n])[n]
                    if len(w1) <= o or w1[o] != w1[o] or abs(w1[o] - d0) < 1e-9 or abs(w1[o]) == ri.INF:
                        continue
                    h, hp, dp = h1, 0.0, d0
                    d = w1[o]
                    for _ in range(3):          # secant towards the threshold
                        if d == dp:
                            break
                        hn = h - d * (h - hp) / (d - dp)
                        if not abs(hn) < 1e3:
                            break
                        hp, dp = h, d
                        h = hn
                        w = dist(at(h), [n])[n]
                        if len(w) <= o or w[o] != w[o] or abs(w[o]) == ri.INF:
                            break
                        d = w[o]
                        if abs(d) < 1e-7 * abs(d0):
                            break
                    if not abs(d) < 1e-3 * abs(d0):
                        continue
                    sl = (w1[o] - d0) / h1 if dp == d else (d - dp) / (h - hp)
                    if not sl or sl != sl:
                        continue
                    for e in (-1e-4, -1e-2, -0.15, 1e-3, 0.1):
                        yield "near a threshold by %s%s" % (k[1], list(k[2])), at(h + e * d0 / sl)
                    break

        free = self.desc.profile(self, unit, inst)
        focus, dn = self.focus(left)
        isz = sorted(p for p in focus if p.startswith("arg") and p.endswith((".#n", ".#r", ".#c")) and E.SYMTY.get(p, "i") == "i")
        for q in range(seeds):
            if isz and "throw" in left:
                # malformed arguments: one size off
                p = isz[q % len(isz)]
                for d in (1, -1, 2):
                    v = val(q, "gen")
                    v.shift = {p: d}
                    v.only = ("throw",)
                    yield "size %s %+d" % (p, d), v
            for mode in unit.modes:
                if mode != "nan":
                    yield mode, val(q, mode)
                if mode == "tie":
                    for k in (100, 200, 300):
                        yield mode, val(q + k, mode)
            for mode in ("gen2", "gen3"):
                v = val(q, mode)
                v.ind = True
                v.flat = mode == "gen3"
                yield "indefinite", v
            if free.again is not None and unit.id.endswith(".solve"):
                v = val(q, "gen")
                v.again = free.again
                v.tie = True
                yield "called again", v
            b, sy, fu, cm, hot = rec(q)
            if "throw" in left:
                p = choose(b, sorted(p for p in sy if p.startswith("arg")), "argneg")
                if p is not None:
                    x = choose(b, sy[p], "argneg", "i")
                    v = poked(q, [("s", p, x)], lambda v, r, xs: -0.3)
                    v.only = ("throw",)
                    yield "negative %s%s" % (p, list(x)), v
            for j in range(8):
                c = choose(b, hot, "htie", j) if j < 4 and hot else choose(b, cm, "tie", j)
                if c is None:
                    break
                v = poked(q, [c[0]], lambda v, r, xs, c=c[1]: c)
                v.tie = True
                yield "tie %s%s" % (c[0][1], list(c[0][2])), v
            for x in cross(q):
                yield x
            loose = sorted(p for p in sy if free.ruled(p) is None and "config_" not in p)
            lf = sorted(p for p in fu if free.ruled("this" + p.split(":", 1)[1] if ":" in p else p) is None and not any(re.search(r, p) for r, _ in free.frules))
            for j, (w, f) in enumerate((("negative", lambda v, r, xs: -abs(r)), ("zero", lambda v, r, xs: 0.0), ("large", lambda v, r, xs: 1e3 * r))):
                p = choose(b, loose, w, j)
                if p is not None:
                    x = choose(b, sy[p], w, j, "i")
                    yield "%s %s%s" % (w, p, list(x)), poked(q, [("s", p, x)], f)
                p = choose(b, lf, w, j, "f")
                if p is not None:
                    yield "%s %s" % (w, p), poked(q, [("f", p, x) for x in fu[p]], f)
            asym = sorted(p for p in list(sy) + list(fu) if re.search(free.asym, p)) if free.asym else []
            if asym:
                yield "asymmetric %s" % asym, poked(q, [("s", p, x) for p in asym for x in sy.get(p, ()) if x[-2] < x[-1]] + [("f", p, x) for p in asym for x in fu.get(p, ()) if x[0] < x[1]],
                                                    lambda v, r, xs: 0.7 - r)
        yield None, None
        for q in range(seeds):
            if "nan" in unit.modes:
                yield "nan", val(q, "nan")
            b, sy, fu, cm, hot = rec(q)
            names = sorted([("s", p) for p in sy if "config_" not in p and not free.istime(p) and free.maynan(p)] + [("f", p) for p in fu if p != "dt"])
            for j in range(6):
                c = choose(b, names, "nan", j)
                if c is None:
                    break
                x = choose(b, (sy if c[0] == "s" else fu)[c[1]], "nan", j, "i")
                z = (ri.NANV, ri.NANV, ri.INF, -ri.INF)[int(b.rnd("nk", q, j) * 4)]
                half = c[0] == "f" and j % 2

                def f(v, r, xs, z=z, half=half):
                    if half:
                        h = v.smooth("poke", xs, ())
                        if abs(h) < 1e-8:
                            v.fragile += 1
                        if h > 0:
                            return r
                    return z
                yield "nan at %s%s = %s" % (c[1], list(x), z), poked(q, [(c[0], c[1], x)], f)
            for j in range(2):
                p = choose(b, sorted(p for p in sy if free.atzero(p)), "zero", j)
                if p is not None:
                    x = choose(b, sy[p], "zero", j, "i")
                    yield "zero %s%s" % (p, list(x)), poked(q, [("s", p, x)], lambda v, r, xs: 0.0)

    def leftover(self, unit, inst, n, names):
        """state entering the function that moves the code's value of output n and not the reference's, at a separating valuation"""
        if (unit.id, inst, n) not in self.wit:
            return []
        v, (k, sb, ib) = self.wit[(unit.id, inst, n)]
        s = self.res.get(("spec", unit.id, inst, frozenset()))
        self.point = None
        out = []
        try:
            if s is None or self.sep1(v, s, n, k, sb, ib) is None or self.point is None:
                return []
            e = self.point
            v = v.fresh()
            x, y = v.ev(sb, e), v.ev(ib, e)
            by = {}
            for (p, idx), r in v.symc.items():
                if r.__class__ is float and names.search(p):
                    by.setdefault(p, []).append(idx)
            for p in sorted(by):
                w = v.fresh()
                w.poke = dict(v.poke)
                w.poke.update({("s", p, idx): (lambda v, r, xs: 0.7 * r + 0.31) for idx in by[p]})
                if ri.same(x, w.ev(sb, e)) and not ri.same(y, w.ev(ib, e)):
                    out.append(p)
        except (ri.Discard, ri.NonTerm, ValueError, OverflowError, KeyError):
            pass
        return out

    def focus(self, left):
        """free symbols below the smallest parts in which the graphs differ"""
        a, b = set(), set()

        def nodes(x, out):
            if isinstance(x, (list, tuple)):
                for ev in x:
                    nodes(getattr(ev, "pc", None), out)
                return
            if x is not None:
                T.subnodes(x, out)
        for k, sb, ib in left.values():
            nodes(sb, a)
            nodes(ib, b)
        out = set()
        d = a ^ b
        n = 0
        for x in d:
            if not any(c in d for c in T.children(x)) and n < 4000:
                n += 1
                out |= T.syms(x)
        return out, d

    def sep_all(self, v, s, left, dry=False):
        th = v.ev(s.throw, {})
        out = []
        frag = False
        for n in list(left):
            k, sb, ib = left[n]
            if (th or v.only) and n != "throw":
                continue
            w = self.sep_stream(v, sb, ib) if k[0] == "stream" else self.sep1(v, s, n, k, sb, ib)
            if w is not None and not dry:
                if v.fragile:
                    # decide this output by itself
                    v2 = v.fresh()
                    v2.ev(s.throw, {})
                    w = self.sep_stream(v2, sb, ib) if k[0] == "stream" else self.sep1(v2, s, n, k, sb, ib)
                    if w is None or v2.fragile:
                        frag = True
                        continue
                out.append((n, w))
        return out, frag

    def separate(self, unit, inst, s, i, todo, seeds):
        """random interpretation of the non-congruent outputs"""
        left = {n: (k, sb, ib) for n, k, sb, ib in todo}
        out = []
        used = 0
        disc = {}
        nan = ""
        t_end = time.time() + SEP_BUDGET
        for mode, v in self.plans(unit, inst, s, i, left, seeds):
            if not left:
                break
            if mode is None:
                nan = NANTAG
                t_end = time.time() + SEP_BUDGET / 2
                continue
            if time.time() > t_end and (nan or used >= 4 * len(unit.modes)):
                if nan:
                    break
                continue
            try:
                hits, frag = self.sep_all(v, s, left)
                if frag:
                    disc["fragile"] = disc.get("fragile", 0) + 1
                for n, w in hits:
                    if not nan and left[n][0][0] != "stream":
                        self.wit[(unit.id, inst, n)] = (v.fresh(), left[n])
                    out.append((n, "differ", "%svaluation %s/%s: %s" % (nan, v.seed, mode, w)))
                    del left[n]
                used += 1
            except (ri.Discard, ValueError, OverflowError) as x:
                disc[str(x)] = disc.get(str(x), 0) + 1
        if os.environ.get("SA_SEP"):
            print("SEP", unit.id, inst, "used", used, disc, "left", len(left), "%.1fs" % (time.time() - t_end + SEP_BUDGET), list(left)[:4], file=sys.stderr)
        for n in left:
            out.append((n, "same" if used >= 2 else "undecided", "no separating valuation in %d (discarded %s)" % (used, disc)))
        self.nval = getattr(self, "nval", 0) + used
        return out

    def sizes(self, v, o, n, k, idx=()):
        """extents of output n, from the reference's final state"""

    def sep1(self, v, s, n, k, sb, ib):
        """a point at which the two graphs differ, or None"""
        if n.startswith("ret"):
            look = {("ret" + rel): b for rel, kk, b in s.ret}
        else:
            look = None

        def size(p, idx):
            if look is not None:
                b = look.get(p)
            else:
                b = s.cells.get(p)
                if b is None and p in s.eng.shape:
                    b = s.eng.initial(p)
            if b is None:
                return v.pf.extent(v, p, idx)
            e = {PL(q): x for q, x in enumerate(idx)}
            return v.rng(b, e)

        def rec(done, idx):
            p = n.find("[]", done)
            if p >= 0:
                m = size(n[:p] + ".#n", idx)
                for q in range(m):
                    r = rec(p + 2, idx + (q,))
                    if r:
                        return r
                return None
            r = c = 1
            if k[0] == "ten":
                r = k[1] if k[1] >= 0 else size(n + ".#r", idx)
                c = k[2] if k[2] >= 0 else size(n + ".#c", idx)
            e = {PL(q): x for q, x in enumerate(idx)}
            for a in range(r):
                e[PI] = a
                for b in range(c):
                    e[PJ] = b
                    x = v.ev(sb, e)
                    try:
                        y = v.ev(ib, e)
                    except ri.NonTerm:
                        return "the reference terminates (value %.9g), the code's loop does not leave within %d iterations" % (x, v.CAP)
                    if not ri.same(x, y) and not v.unstable(sb, e, x, y):
                        at = "".join("[%d]" % q for q in idx) + ("(%d,%d)" % (a, b) if k[0] == "ten" else "")
                        self.point = dict(e)
                        return "at %s reference %.9g, code %.9g" % (at or "-", x, y)
            return None
        return rec(0, ())


class EventScan:
    """element accesses and model calls of a unit, under valuations, for code and reference alike"""
    DIMS = ("dt", "inputDim", "stateDim", "ineqDim", "horizonSteps")

    def __init__(self, mod, unit, inst, inl=frozenset()):
        self.mod, self.unit, self.inst, self.inl = mod, unit, inst, inl
        self.sites = set()
        self.nval = 0
        self.nacc = 0
        self.ncall = 0

    def active(self, v, evs):
        """(event, env) for each occurrence under the valuation, in order of loops"""
        def seq(evs, d, e):
            q = 0
            while q < len(evs):
                ev = evs[q]
                if len(ev.loops) <= d:
                    if v.ev(ev.pc, e):
                        yield ev, e
                    q += 1
                    continue
                nv, hi = ev.loops[d]
                z = q
                while z < len(evs) and len(evs[z].loops) > d and evs[z].loops[d][0] is nv:
                    z += 1
                for t in range(v.rng(hi, e)):
                    e2 = dict(e)
                    e2[nv] = t
                    yield from seq(evs[q:z], d + 1, e2)
                q = z
        yield from seq(evs, 0, {})

    def oob(self, v, evs):
        out = []
        for ev, e in self.active(v, evs):
            self.nacc += 1
            path, rs = ev.data
            for a, ln, n in rs:
                a, ln, n = v.ev(a, e), v.ev(ln, e), v.ev(n, e)
                if ln == 0 and 0 <= a <= n:
                    continue
                if not (a >= 0 and ln >= 0 and a + ln <= n):
                    out.append((ev.where, path, "access [%s,%s) of %s elements" % (a, a + ln, n)))
                    break
        return out

    def calls(self, v, evs):
        out = {}
        for ev, e in self.active(v, evs):
            name, ins, shp = ev.data
            if name in self.DIMS:
                continue
            self.ncall += 1
            xs = []
            for x in ins:
                xs += v.args(x, e)
            for s in shp:
                for y in s or ():
                    xs.append(v.ev(y, e) if isinstance(y, Node) else y)
            out.setdefault(name, []).append((tuple(xs), ev.where))
        return out

    def run(self, seeds, modes=None, kinds=("idx", "model")):
        m = self.mod
        m.cur_inst = self.inst
        s = m.run(m.S, self.unit, self.inst, self.inl)
        m.cur_inst = self.inst
        i = m.run(m.I, self.unit, self.inst, self.inl)
        if s is None or i is None or s.err or i.err or i.eng.lost:
            return []
        res = {}
        si = [e for e in s.eng.events if e.kind == "idx"]
        ii = [e for e in i.eng.events if e.kind == "idx"]
        sm = [e for e in s.eng.events if e.kind == "model"]
        im = [e for e in i.eng.events if e.kind == "model"]
        self.sites |= {e.where for e in ii}
        self.csites = {(e.where, e.data[0]) for e in im if e.data[0] not in self.DIMS}
        for q in range(seeds):
            for mode in modes or self.unit.modes:
                if T.DEADLINE[0] is not None and time.time() > T.DEADLINE[0]:
                    return list(res.values())
                pf = m.desc.profile(m, self.unit, self.inst)
                v = ri.Val("%s.%d" % (self.unit.id, q), mode, pf)
                try:
                    th = v.ev(s.throw, {})
                    so = self.oob(v, si)
                    sc = self.calls(v, sm)
                    try:
                        io = self.oob(v, ii)
                        ic = self.calls(v, im)
                    except ri.NonTerm:
                        if not v.fragile:
                            res.setdefault(("nonterm",), ("nonterm", i.fn.get("file"), i.fn.get("line"), "a loop does not leave within %d iterations under valuation %s/%s" % (v.CAP, v.seed, mode)))
                        continue
                except ri.Discard:
                    continue
                self.nval += 1
                if v.fragile:
                    continue
                if not so:
                    for w, path, d in io:
                        res.setdefault(("idx", w, path), ("early-idx" if th else "idx", w[0], w[1], "%s in %s: %s (valuation %s/%s)" % (path, w[2], d, v.seed, mode)))
                if th:
                    for name, cs in ic.items():
                        if name not in sc:
                            w = cs[0][1]
                            res.setdefault(("early", name, w), ("early-model", w[0], w[1], "%s is called before the guess is rejected (valuation %s/%s)" % (name, v.seed, mode)))
                    continue
                for name in sorted(set(sc) | set(ic)):
                    d = self.setdiff(sc.get(name, []), ic.get(name, []))
                    if d:
                        w = (ic.get(name) or sc.get(name))[0][1] if d[1] is None else d[1]
                        if not ic.get(name):
                            w = (i.fn.get("file"), i.fn.get("line"), i.fn.get("q"))
                        res.setdefault(("model", name, d[0]), ("model", w[0], w[1], "%s %s (valuation %s/%s)" % (name, d[0], v.seed, mode)))
        return list(res.values())

    def setdiff(self, a, b):
        def has(x, ys):
            return any(len(x) == len(y) and ri.same(x, y) for y, _ in ys)
        for x, w in b:
            if not has(x, a):
                return "is evaluated at arguments at which the reference does not evaluate it", w
        for x, w in a:
            if not has(x, b):
                return "is not evaluated at arguments at which the reference evaluates it", None
        return None


class Unit:
    def __init__(self, id, cls, fn, insts, np=None, anchors=(), public=False, props=None, modes=("gen", "gen2", "tie", "nan", "lit"), prep=None,
                 outs=(), callers=(), obs=r""):
        self.id, self.cls, self.fn, self.insts, self.np = id, cls, fn, insts, np
        self.anchors, self.public, self.props, self.modes, self.prep = anchors, public, props or {}, modes, prep
        self.outs = outs
        self.callers = callers
        self.obs = obs
        self.pick = None
        self.opaque = None
        self.rules = ()
