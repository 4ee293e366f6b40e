"""Value-graph analysis of the extracted program: every function is turned into closed normal-form terms for the cells it
writes, its return value, and the conditions under which it throws.  Branches are joined by gated (ite) terms, loops are
closed by recurrence analysis, calls are inlined or replaced by the callee's contract.  No path is enumerated."""
from fractions import Fraction
from . import dag as T
from .dag import (const, var, ZERO, ONE, TRUE, FALSE, PI, PJ, PL, SYM, FUN, BFUN, PHI, LAM, add, sub, mul, neg, div, recip,
                    scale, sqrt, power, MAXN, MINN, ite, band, bor, bnot, truth, gt0, ge0, eq0, exists, first, red_max, sum_over,
                    subst, is_const, gensym, nan_atom, assume, STRUCT, lt, le, eq, igt)
from .loops import Loops
from .methods import Methods


BINDC = {}


class Unsup(Exception):
    pass


SYMTY = {}          # SYM path -> 'i' | 'b' | 'd'
UNINIT = "uninit:"


def unk(why, args=()):
    return FUN("unk:" + why, tuple(args))


# ---------------------------------------------------------------- types
DECS = {"LLT", "LDLT", "FullPivLU", "PartialPivLU", "HouseholderQR", "ColPivHouseholderQR", "FullPivHouseholderQR",
        "CompleteOrthogonalDecomposition"}


class Types:
    def __init__(self, table, records):
        self.t = table
        self.rec = {r["t"]: r for r in records}
        self.memo = {}

    def strip(self, t):
        while self.t[t]["k"] == "ref":
            t = self.t[t]["to"]
        return t

    def isref(self, t):
        return self.t[t]["k"] == "ref"

    def nonconst_ref(self, t):
        x = self.t[t]
        return x["k"] == "ref" and not x.get("const") and not x.get("rv")

    def kind(self, t):
        t = self.strip(t)
        r = self.memo.get(t)
        if r is None:
            r = self._kind(t)
            self.memo[t] = r
        return r

    def targ_t(self, x, i):
        return x["a"][i].get("t")

    def targ_i(self, x, i):
        v = x["a"][i].get("i")
        return None if v is None else int(v)

    def _kind(self, t):
        x = self.t[t]
        k = x["k"]
        if k == "float":
            return ("num", "d")
        if k in ("int", "enum"):
            return ("num", "i")
        if k == "bool":
            return ("num", "b")
        if k == "ptr":
            return ("ptr", x["to"])
        if k == "carr":
            return ("arr", x["to"], x.get("n"))
        if k == "rec":
            n = x["n"]
            if n in ("Eigen::Matrix", "Eigen::Array"):
                r, c = self.targ_i(x, 1), self.targ_i(x, 2)
                st = self.kind(self.targ_t(x, 0))
                return ("ten", r, c, n.endswith("Array"), st[1] if st[0] == "num" else "d")
            if n in ("Eigen::Ref", "Eigen::Map"):
                b = self.kind(self.targ_t(x, 0))
                return b + (n[7:],)
            if n.startswith("Eigen::") and n[7:] in DECS:
                return ("dec", n[7:])
            if n.startswith("Eigen::IOFormat"):
                return ("op", n)
            if n.startswith("Eigen::"):
                return ("expr", n)
            if n == "std::vector":
                return ("vec", self.targ_t(x, 0))
            if n == "std::array":
                return ("arr", self.targ_t(x, 0), self.targ_i(x, 1))
            if n in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
                return ("sptr", self.targ_t(x, 0))
            if n == "std::function":
                return ("fn",)
            if n in ("std::pair", "std::tuple"):
                return ("tup", tuple(a.get("t") for a in x["a"]))
            if n == "std::optional":
                return ("opt", self.targ_t(x, 0))
            if n.endswith("__normal_iterator"):
                return ("iter",)
            if x.get("lambda"):
                return ("fn",)
            if t in self.rec:
                return ("rec", t)
            return ("op", n)
        if k == "void":
            return ("void",)
        return ("op", k)

    def name(self, t):
        x = self.t[self.strip(t)]
        return x.get("n", x["k"])

    def fields(self, t):
        r = self.rec[t]
        out = []
        for b in r.get("bases") or []:
            if b in self.rec:
                out += self.fields(b)
        return out + r["fields"]

    def leaves(self, t, rel="", depth=0):
        """[(rel path, kind)] kinds: ('num',ty) ('ten',...) ('obj',)"""
        k = self.kind(t)
        if k[0] == "num":
            return [(rel, k)]
        if k[0] == "ten":
            out = [(rel, k)]
            if k[1] < 0:
                out.append((rel + ".#r", ("num", "i")))
            if k[2] < 0:
                out.append((rel + ".#c", ("num", "i")))
            return out
        if k[0] == "vec":
            return [(rel + ".#n", ("num", "i"))] + self.leaves(k[1], rel + "[]", depth + 1)
        if k[0] == "arr":
            return self.leaves(k[1], rel + "[]", depth + 1)
        if k[0] == "rec":
            out = []
            for f in self.fields(k[1]):
                out += self.leaves(f["t"], rel + "." + f["n"], depth + 1)
            return out
        if k[0] == "dec":
            return [(rel + ".#mat", ("ten", -1, -1, False, "d")), (rel + ".#r", ("num", "i")), (rel + ".#c", ("num", "i"))]
        if k[0] == "sptr":
            p = self.kind(k[1])
            if p[0] in ("dec", "num", "vec") or (p[0] == "ten" and len(p) == 5):
                return self.leaves(k[1], rel + "->", depth + 1)
            return [(rel, ("obj",))]
        if k[0] == "iter":
            return [(rel, ("num", "i"))]
        if k[0] == "tup":
            out = []
            for i, e in enumerate(k[1]):
                if e is not None:
                    out += self.leaves(e, rel + ".<%d>" % i, depth + 1)
            return out
        if k[0] == "opt":
            return [(rel + ".#has", ("num", "b"))] + self.leaves(k[1], rel + ".val", depth + 1)
        return [(rel, ("obj",))]


# ---------------------------------------------------------------- values
class Num:
    __slots__ = ("r", "c", "b", "ty", "arr", "al", "chr", "fmt")

    def __init__(self, b, ty="d", r=None, c=None, arr=False, al=frozenset(), chr=False):
        self.b, self.ty, self.r, self.c, self.arr, self.al, self.chr = b, ty, r, c, arr, al, chr
        self.fmt = None         # separators of Eigen's formatted output

    @property
    def scalar(self):
        return self.r is None

    def __repr__(self):
        return "Num<%s>(%s)" % (self.ty if self.scalar else "%s x %s" % (T.show(self.r, 2), T.show(self.c, 2)), T.show(self.b, 4))


class View:
    __slots__ = ("r", "c", "bi", "bj", "vi", "vj", "mem", "scalar", "arr")

    def __init__(self, r, c, bi, bj, vi, vj, mem, scalar=False, arr=False):
        self.r, self.c, self.bi, self.bj, self.vi, self.vj, self.mem, self.scalar, self.arr = r, c, bi, bj, vi, vj, mem, scalar, arr


class LV:
    __slots__ = ("path", "idx", "t", "view", "noalias")

    def __init__(self, path, idx, t, view=None, noalias=False):
        self.path, self.idx, self.t, self.view, self.noalias = path, tuple(idx), t, view, noalias

    def __repr__(self):
        return "LV(%s,%s%s)" % (self.path, self.idx, ",view" if self.view else "")


class Agg:
    __slots__ = ("t", "lv", "ob")

    def __init__(self, t, lv, ob=None):
        self.t, self.lv, self.ob = t, lv, ob or {}


class Fn:
    __slots__ = ("kind", "a", "env")

    def __init__(self, kind, a, env=None):
        self.kind, self.a, self.env = kind, a, env


class Ptr:
    __slots__ = ("lv", "raw")

    def __init__(self, lv, raw=None):
        self.lv, self.raw = lv, raw


class Dec:
    __slots__ = ("kind", "mat")

    def __init__(self, kind, mat):
        self.kind, self.mat = kind, mat


class Tri:
    __slots__ = ("mat", "mode")

    def __init__(self, mat, mode):
        self.mat, self.mode = mat, mode


class Stream:
    __slots__ = ("name", "kind")

    def __init__(self, name, kind):
        self.name, self.kind = name, kind


class Opq:
    __slots__ = ("n",)

    def __init__(self, n=None):
        self.n = n


class Iter:
    __slots__ = ("lv", "i")

    def __init__(self, lv, i):
        self.lv, self.i = lv, i


class Diag:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Cols:
    """colwise()/rowwise() proxy"""
    __slots__ = ("v", "ax")

    def __init__(self, v, ax):
        self.v, self.ax = v, ax


class Lazy:
    __slots__ = ("e", "env")

    def __init__(self, e, env):
        self.e, self.env = e, env


VOID = Opq("void")


class St:
    __slots__ = ("c", "o")

    def __init__(self, c=None, o=None):
        self.c, self.o = c or {}, o or {}

    def copy(self):
        return St(dict(self.c), dict(self.o))


class Frame:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this
        self.rets = []
        self.vt = {}


class Event:
    __slots__ = ("kind", "data", "pc", "loops", "where")

    def __init__(self, kind, data, pc, where):
        self.kind, self.data, self.pc, self.loops, self.where = kind, data, pc, [], where


def lits_and(cs):
    r = TRUE
    for c in cs:
        r = band(r, c)
    return r


class Program:
    """one extracted translation unit"""

    def __init__(self, d, renames=None):
        self.types = Types(d["types"], d["records"])
        self.fns = {f["id"]: f for f in d["functions"]}
        self.byname = {}
        for f in d["functions"]:
            self.byname.setdefault(f["q"], []).append(f)
        self.records = d["records"]

    def find(self, q, targs=None, nparams=None):
        out = []
        for f in self.byname.get(q, []):
            if targs is not None:
                a = self.types.t[f["cls"]].get("a", []) if f.get("cls") is not None else []
                if [int(x["i"]) for x in a if "i" in x] != list(targs):
                    continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            out.append(f)
        return out


class Engine(Loops, Methods):
    MAXDEPTH = 60

    def __init__(self, prog, override=None, anchors=None, opaque_classes=(), canon=None):
        self.p = prog
        self.ty = prog.types
        self.override = override or (lambda path, idxs: None)
        self.anchors = anchors or {}
        self.opaque_classes = tuple(opaque_classes)
        self.canon = canon or {}
        self.st = St()
        self.pc = TRUE
        self.throws = []
        self.events = []
        self.loopstack = []
        self.frames = []
        self.uid = 0
        self.shape = {}
        self.kindof = {}
        self.nloop = 0
        self.timec = 0
        self.line = 0
        self.callstack = []
        self.notes = []
        self.calls = set()
        self.nsites = 0
        self.looplog = []
        self.dry = 0
        self.lost = []          # effects that could not be modelled: nothing is concluded from differences then
        self.sel = {}
        self.wcache = {}

    # ------------------------------------------------------------ cells
    def npl(self, path):
        return path.count("[]")

    def reg(self, path, k):
        if path not in self.shape:
            self.kindof[path] = k
            ex = ()
            if k[0] == "ten":
                ex = ((PI,) if k[1] != 1 else ()) + ((PJ,) if k[2] != 1 else ())
                SYMTY[path] = k[4]
            else:
                SYMTY[path] = k[1]
            self.shape[path] = tuple(PL(i) for i in range(self.npl(path))) + ex
        return self.shape[path]

    def cell(self, path, k=None):
        b = self.st.c.get(path)
        if b is None:
            if k is not None:
                self.reg(path, k)
            b = self.initial(path)
        return b

    def initial(self, path):
        ids = tuple(var(v) for v in self.shape[path])
        o = self.override(path, ids)
        if o is not None:
            return o
        if path.startswith("$"):
            return SYM(UNINIT + path.split("@")[0][1:], ids)
        return SYM(path, ids)

    def read(self, path, idx, k):
        """leaf read: first len(idx) vector placeholders bound, the rest renumbered from 0"""
        if path.startswith("$sel@"):
            c, (pa, ia), (pb, ib) = self.selected(path, idx)
            return ite(c, self.read(pa, ia, k), self.read(pb, ib, k))
        b = self.cell(path, k)
        n = len(idx)
        tot = self.npl(path)
        if not idx:
            return b
        mp = {PL(i): idx[i] for i in range(n)}
        for q in range(n, tot):
            mp[PL(q)] = var(PL(q - n))
        return subst(b, mp)

    def selected(self, path, idx):
        """the two places a conditional lvalue stands for"""
        root = path.split(".")[0].split("[")[0].split("-")[0]
        c, a, b = self.sel[root]
        rest = path[len(root):]
        return c, (a.path + rest, a.idx + idx), (b.path + rest, b.idx + idx)

    def write(self, path, idx, k, body):
        if path.startswith("$sel@"):
            c, (pa, ia), (pb, ib) = self.selected(path, idx)
            na, nb = ite(c, body, self.read(pa, ia, k)), ite(c, self.read(pb, ib, k), body)
            self.write(pa, ia, k, na)
            self.write(pb, ib, k, nb)
            return
        self.reg(path, k)
        n = len(idx)
        tot = self.npl(path)
        if n == 0:
            self.st.c[path] = body
            return
        if tot > n:
            body = subst(body, {PL(q): var(PL(q + n)) for q in range(tot - n)})
        c = TRUE
        for i in range(n):
            c = band(c, eq0(sub(var(PL(i)), idx[i]), True))
        old = self.cell(path, k)
        self.st.c[path] = ite(c, body, old)

    # ------------------------------------------------------------ lvalues
    def fresh(self, name):
        self.uid += 1
        return "$%s@%d" % (name, self.uid)

    def tdims(self, lv, k=None):
        k = k or self.ty.kind(lv.t)
        r = const(k[1]) if k[1] >= 0 else self.read(lv.path + ".#r", lv.idx, ("num", "i"))
        c = const(k[2]) if k[2] >= 0 else self.read(lv.path + ".#c", lv.idx, ("num", "i"))
        return r, c

    def load(self, v):
        if isinstance(v, Lazy):
            return self.load(self.force(v))
        if not isinstance(v, LV):
            return v
        k = self.ty.kind(v.t)
        if k[0] == "num":
            b = self.read(v.path, v.idx, k)
            if k[1] == "b":
                b = truth(b)
            return Num(b, k[1])
        if k[0] == "ten":
            r, c = self.tdims(v, k)
            b = self.read(v.path, v.idx, k[:5])
            ty = k[4]
            if ty == "b":
                b = truth(b)
            md = "cw"
            if v.view is not None and (PJ in v.view.bi.fv or PI in v.view.bj.fv) and v.view.r is not ONE and v.view.c is not ONE:
                md = "tr"
            al = frozenset(((v.path, v.idx, md),))
            if v.view is None:
                return Num(b, ty, r, c, k[3], al)
            w = v.view
            b = self.vsub(b, w)
            if w.scalar:
                return Num(b, ty)
            return Num(b, ty, w.r, w.c, w.arr, al)
        if k[0] == "dec":
            m = Num(self.read(v.path + ".#mat", v.idx, ("ten", -1, -1, False, "d")), "d",
                    self.read(v.path + ".#r", v.idx, ("num", "i")), self.read(v.path + ".#c", v.idx, ("num", "i")))
            return Dec(k[1], m)
        if k[0] in ("vec", "arr", "rec", "tup", "opt"):
            lv, ob = {}, {}
            for rel, lk in self.ty.leaves(v.t):
                if lk[0] == "obj":
                    o = self.st.o.get(v.path + rel)
                    if o is not None:
                        ob[rel] = o
                else:
                    lv[rel] = self.read(v.path + rel, v.idx, lk)
            return Agg(v.t, lv, ob)
        if k[0] in ("ptr", "sptr"):
            o = self.st.o.get(v.path)
            if o is not None:
                return o
            return Ptr(LV(v.path + "->", v.idx, k[1]))
        if k[0] == "fn":
            o = self.st.o.get(v.path)
            return o if o is not None else Fn("sym", (v.path, v.idx))
        if k[0] == "iter":
            o = self.st.o.get(v.path)
            if isinstance(o, LV):
                return Iter(o, self.read(v.path, v.idx, ("num", "i")))
            return Opq("iter")
        if k[0] == "op" and k[1].startswith("std::basic_") and "stream" in k[1]:
            o = self.st.o.get(v.path)
            if isinstance(o, Stream):
                return o
            return Stream(v.path, "file" if "fstream" in k[1] else "mem")
        o = self.st.o.get(v.path)
        if o is None and k[0] == "op" and k[1].startswith("Eigen::IOFormat"):
            for r in self.p.records:
                for f in r["fields"]:
                    if f["n"] == v.path.split(".")[-1] and f.get("init") is not None and self.ty.kind(f["t"]) == k:
                        o = self.rv(f["init"])
        return o if o is not None else Opq(v.path)

    def vsub(self, b, w):
        return subst(b, {PI: w.bi, PJ: w.bj})

    def hazard(self, lv, val):
        for p, idx, mode in val.al:
            if p == lv.path and idx == lv.idx:
                if mode == "tr" or (mode == "prod" and lv.noalias):
                    return True
        return False

    def store(self, lv, v):
        if isinstance(lv, Lazy):
            lv = self.force(lv)
        if not isinstance(lv, LV):
            raise Unsup("store to rvalue")
        k = self.ty.kind(lv.t)
        v = self.load(v)
        if k[0] == "num":
            n = self.num(v)
            b = n.b
            if k[1] == "b":
                b = self.tob(n)
            elif k[1] == "i" and n.ty == "d":
                b = FUN("trunc", (b,))
            self.write(lv.path, lv.idx, k, b)
            return
        if k[0] == "ten":
            if isinstance(v, Diag):
                v = self.diagmat(v)
            if isinstance(v, Agg) or not isinstance(v, Num):
                v = Num(unk("tensor-store"), k[4], *self.tdims(lv, k))
            b = v.b
            if k[4] == "b":
                b = self.tob(v)
            if self.hazard(lv, v):
                b = FUN("alias-hazard", (LAM([PI, PJ], b),), (var(PI), var(PJ)))
            if lv.view is not None:
                w = lv.view
                nb = b if v.scalar else subst(b, {PI: w.vi, PJ: w.vj})
                old = self.read(lv.path, lv.idx, k[:5])
                if k[4] == "b":
                    old = truth(old)
                nb = ite(w.mem, nb, old)
                if k[2] == 1:
                    nb = subst(nb, {PJ: ZERO})
                if k[1] == 1:
                    nb = subst(nb, {PI: ZERO})
                self.write(lv.path, lv.idx, k[:5], nb)
                return
            if v.scalar:
                v = Num(b, v.ty, ONE, ONE)
            if k[1] < 0:
                self.write(lv.path + ".#r", lv.idx, ("num", "i"), v.r)
            if k[2] < 0:
                self.write(lv.path + ".#c", lv.idx, ("num", "i"), v.c)
            # a row vector assigned to a column vector (or vice versa) is transposed by Eigen
            if k[2] == 1 and is_const(v.c) != 1 and (is_const(v.r) == 1):
                b = subst(b, {PI: var(PJ), PJ: var(PI)})
                if k[1] < 0:
                    self.write(lv.path + ".#r", lv.idx, ("num", "i"), v.c)
            elif k[1] == 1 and is_const(v.r) != 1 and is_const(v.c) == 1:
                b = subst(b, {PI: var(PJ), PJ: var(PI)})
                if k[2] < 0:
                    self.write(lv.path + ".#c", lv.idx, ("num", "i"), v.r)
            if k[2] == 1:
                b = subst(b, {PJ: ZERO})
            if k[1] == 1:
                b = subst(b, {PI: ZERO})
            self.write(lv.path, lv.idx, k[:5], b)
            return
        if k[0] == "dec":
            if isinstance(v, Num):
                v = Dec(k[1], v)
            m = v.mat if isinstance(v, Dec) else Num(unk("dec"), "d", unk("dec"), unk("dec"))
            self.write(lv.path + ".#mat", lv.idx, ("ten", -1, -1, False, "d"), m.b)
            self.write(lv.path + ".#r", lv.idx, ("num", "i"), m.r)
            self.write(lv.path + ".#c", lv.idx, ("num", "i"), m.c)
            return
        if k[0] in ("vec", "arr", "rec", "tup", "opt"):
            if isinstance(v, Num) and k[0] == "opt":
                self.write(lv.path + ".#has", lv.idx, ("num", "b"), TRUE)
                self.store(LV(lv.path + ".val", lv.idx, k[1]), v)
                return
            if not isinstance(v, Agg):
                for rel, lk in self.ty.leaves(lv.t):
                    if lk[0] != "obj":
                        self.write(lv.path + rel, lv.idx, lk, unk("agg-store"))
                return
            for rel, lk in self.ty.leaves(lv.t):
                if lk[0] == "obj":
                    if rel in v.ob:
                        self.st.o[lv.path + rel] = v.ob[rel]
                elif rel in v.lv:
                    self.write(lv.path + rel, lv.idx, lk, v.lv[rel])
                else:
                    self.write(lv.path + rel, lv.idx, lk, unk("agg-leaf" + rel))
            return
        if k[0] == "sptr" and isinstance(v, Ptr) and v.lv is not None and v.raw == "own":
            pk = self.ty.kind(k[1])
            if pk[0] in ("dec", "num", "vec") or (pk[0] == "ten" and len(pk) == 5):
                self.st.o.pop(lv.path, None)
                self.store(LV(lv.path + "->", lv.idx, k[1]), self.load(v.lv))
                return
        if k[0] == "iter" and isinstance(v, Iter):
            self.write(lv.path, lv.idx, ("num", "i"), v.i)
            self.st.o[lv.path] = v.lv
            return
        self.st.o[lv.path] = v

    def materialise(self, v, t, name="tmp"):
        lv = LV(self.fresh(name), (), self.ty.strip(t))
        self.regtype(lv)
        self.store(lv, v)
        return lv

    def regtype(self, lv):
        for rel, lk in self.ty.leaves(lv.t):
            if lk[0] != "obj":
                self.reg(lv.path + rel, lk)

    # ------------------------------------------------------------ scalars
    def num(self, v):
        v = self.load(v)
        if isinstance(v, Num):
            if not v.scalar:
                return self.elem0(v)
            return v
        if isinstance(v, Ptr):
            return Num(TRUE, "b")
        if isinstance(v, Fn):
            return Num(TRUE if v.kind != "sym" else BFUN("has:" + v.a[0], ()), "b")
        if isinstance(v, Opq) and isinstance(v.n, T.Node):
            return Num(v.n, "d")
        return Num(unk("num"), "d")

    def elem0(self, v):
        return Num(subst(v.b, {PI: ZERO, PJ: ZERO}), v.ty)

    def tob(self, n):
        return n.b if n.ty == "b" else truth(n.b)

    def cond(self, v):
        v = self.load(v)
        return self.tob(self.num(v))

    def arith(self, op, a, b):
        ty = "i" if a.ty in "ib" and b.ty in "ib" else "d"
        if op == "+":
            return Num(add(a.b, b.b), ty)
        if op == "-":
            return Num(sub(a.b, b.b), ty)
        if op == "*":
            return Num(mul(a.b, b.b), ty)
        if op == "/":
            if ty == "i":
                return Num(FUN("idiv", (a.b, b.b)), "i")
            return Num(div(a.b, b.b), "d")
        if op == "%":
            return Num(FUN("imod", (a.b, b.b)), "i")
        return Num(unk("op" + op, (a.b, b.b)), ty)

    def cmpb(self, op, x, y, isint, isbool=False):
        if isbool:
            if op == "==":
                return ite(x, y, bnot(y))
            if op == "!=":
                return ite(x, bnot(y), y)
        if op == "<":
            return lt(x, y, isint)
        if op == ">":
            return lt(y, x, isint)
        if op == "<=":
            return le(x, y, isint)
        if op == ">=":
            return le(y, x, isint)
        if op == "==":
            return eq(x, y, isint)
        if op == "!=":
            return bnot(eq(x, y, isint))
        raise Unsup("cmp " + op)

    def compare(self, op, a, b):
        isint = a.ty in "ib" and b.ty in "ib"
        return Num(self.cmpb(op, a.b, b.b, isint, a.ty == "b" and b.ty == "b"), "b")

    def minmax(self, op, x, y, isint=False):
        """std::max(a, b) = (a < b) ? b : a ; std::min(a, b) = (b < a) ? b : a"""
        if isint:
            return MAXN([x, y]) if op == "max" else MINN([x, y])
        if op == "max":
            return ite(lt(x, y), y, x)
        return ite(lt(y, x), y, x)

    def absb(self, x):
        c = is_const(x)
        return const(abs(c)) if c is not None else FUN("abs", (x,))

    # ------------------------------------------------------------ tensors
    def ten(self, v):
        v = self.load(v)
        if isinstance(v, Diag):
            return self.diagmat(v)
        if isinstance(v, Num):
            return v
        return Num(unk("tensor"), "d", unk("dim"), unk("dim"))

    def cast_ten(self, v, t):
        """value converted to the (tensor) type t: static dims win"""
        return v

    def at(self, b, i, j):
        return subst(b, {PI: i, PJ: j})

    def vec(self, v):
        """vector-like tensor -> (size, body over PI)"""
        if v.scalar:
            return ONE, v.b
        cc, rc = is_const(v.c), is_const(v.r)
        if cc == 1:
            return v.r, subst(v.b, {PJ: ZERO})
        if rc == 1:
            return v.c, subst(v.b, {PI: ZERO, PJ: var(PI)})
        if PJ not in v.b.fv:
            return v.r, v.b
        return mul(v.r, v.c), FUN("vecof", (LAM([PI, PJ], v.b), v.r), (var(PI),))

    def sumall(self, v, body=None):
        b = v.b if body is None else body
        key = ("sum", b, v.r, v.c)
        r = BINDC.get(key)
        if r is None:
            i, j = gensym("i"), gensym("j")
            x = subst(b, {PI: i, PJ: j})
            r = BINDC[key] = self.sumn(j, v.c, self.sumn(i, v.r, x))
        return r

    def sumn(self, v, n, body):
        if is_const(n) == 1:
            return subst(body, {v: ZERO})
        if is_const(n) == 0:
            return ZERO
        return sum_over(v, n, body)

    def exall(self, v, body):
        key = ("ex", body, v.r, v.c)
        r = BINDC.get(key)
        if r is None:
            i, j = gensym("i"), gensym("j")
            r = BINDC[key] = exists(j, v.c, exists(i, v.r, subst(body, {PI: i, PJ: j})))
        return r

    def vdiff(self, a, b):
        """two sequences differ in length or in an element; None: not sequences of numbers"""
        ka, kb = self.ty.kind(a.t), self.ty.kind(b.t)
        if ka[0] not in ("vec", "arr") or kb[0] not in ("vec", "arr") or not hasattr(self, "vsize"):
            return None
        n, m = self.vsize(a), self.vsize(b)
        i = gensym("i")
        x, y = self.load(self.elem(a, i, n)), self.load(self.elem(b, i, n))
        if isinstance(x, Num) and isinstance(y, Num):
            isint = x.ty in "ib" and y.ty in "ib"
            r = self.cw2(lambda p, q: self.cmpb("!=", p, q, isint, x.ty == "b" and y.ty == "b"), x, y, "b")
            d = r.b if r.scalar else self.exall(r, r.b)
        elif isinstance(x, Agg) and isinstance(y, Agg):
            d = self.vdiff(x, y)
            if d is None:
                return None
        else:
            return None
        return bor(bnot(eq(n, m, True)), exists(i, n, d))

    def redall(self, v, body):
        key = ("red", body, v.r, v.c)
        r = BINDC.get(key)
        if r is None:
            i, j = gensym("i"), gensym("j")
            r = BINDC[key] = red_max(j, v.c, TRUE, red_max(i, v.r, TRUE, subst(body, {PI: i, PJ: j})))
        return r

    def al_join(self, a, b, mode=None):
        s = a.al | b.al
        if mode:
            s = frozenset((p, i, mode) for p, i, m in s)
        return s

    def matmul(self, a, b):
        if a.scalar or b.scalar:
            return self.cw("*", a, b)
        n = a.c
        if is_const(n) is None and is_const(b.r) is not None:
            n = b.r
        key = ("mm", a.b, b.b, n)
        r = BINDC.get(key)
        if r is None:
            v = gensym("k")
            r = BINDC[key] = self.sumn(v, n, mul(subst(a.b, {PJ: v}), subst(b.b, {PI: v})))
        return Num(r, "d", a.r, b.c, False, self.al_join(a, b, "prod"))

    def diagmat(self, d):
        n, b = self.vec(d.v)
        return Num(ite(eq0(sub(var(PI), var(PJ)), True), b, ZERO), "d", n, n)

    def dims2(self, a, b):
        if a.scalar:
            return b.r, b.c
        if b.scalar:
            return a.r, a.c
        r = a.r if is_const(a.r) is not None or is_const(b.r) is None else b.r
        c = a.c if is_const(a.c) is not None or is_const(b.c) is None else b.c
        return r, c

    def cw(self, op, a, b):
        """coefficient-wise binary operation with scalar broadcast"""
        if a.scalar and b.scalar:
            return self.arith(op, a, b)
        r, c = self.dims2(a, b)
        x = self.arith(op, Num(a.b, a.ty), Num(b.b, b.ty))
        return Num(x.b, x.ty, r, c, a.arr or b.arr, self.al_join(a, b))

    def cwf(self, f, a, ty=None):
        if a.scalar:
            return Num(f(a.b), ty or a.ty)
        return Num(f(a.b), ty or a.ty, a.r, a.c, a.arr, a.al)

    def cw2(self, f, a, b, ty=None):
        r, c = self.dims2(a, b) if not (a.scalar and b.scalar) else (None, None)
        return Num(f(a.b, b.b), ty or a.ty, r, c, a.arr or b.arr, self.al_join(a, b))

    def transpose(self, v):
        b = subst(v.b, {PI: var(PJ), PJ: var(PI)})
        iscol = is_const(v.c) == 1 or is_const(v.r) == 1
        al = v.al if iscol else frozenset((p, i, "tr" if m == "cw" else ("cw" if m == "tr" else m)) for p, i, m in v.al)
        return Num(b, v.ty, v.c, v.r, v.arr, al)

    def inverse(self, m, n=None):
        n = n if n is not None else m.r
        return Num(FUN("inv", (LAM([PI, PJ], m.b), n), (var(PI), var(PJ))), "d", n, n)

    def dec_solve(self, d, rhs):
        m = d.mat
        if isinstance(rhs, Diag):
            rhs = self.diagmat(rhs)
        if isinstance(d, Tri):
            mode = d.mode
            if mode in (2, 6, 10):   # Upper, UnitUpper, StrictlyUpper
                mask = ge0(sub(var(PJ), var(PI)), True)
            else:
                mask = ge0(sub(var(PI), var(PJ)), True)
            b = ite(mask, m.b, ZERO)
            if mode in (5, 6):
                b = ite(eq0(sub(var(PI), var(PJ)), True), ONE, b)
            iv = self.inverse(Num(b, "d", m.r, m.c))
        elif d.kind in ("LLT", "LDLT", "FullPivLU", "PartialPivLU"):
            iv = self.inverse(m)
        else:
            iv = Num(FUN("pinv", (LAM([PI, PJ], m.b), m.r, m.c), (var(PI), var(PJ))), "d", m.c, m.r)
        res = self.matmul(iv, rhs)
        return Num(res.b, "d", iv.r, rhs.c, False, rhs.al)

    # views on lvalues ------------------------------------------------
    def base_view(self, lv):
        if lv.view is not None:
            return lv.view
        r, c = self.tdims(lv)
        k = self.ty.kind(lv.t)
        return View(r, c, var(PI), var(PJ), var(PI), var(PJ), TRUE, False, k[3])

    def mkview(self, lv, r, c, fi, fj, gi, gj, mem, scalar=False, arr=None):
        """fi,fj: new view coords -> old view coords (over PI,PJ); gi,gj: old -> new; mem over old coords"""
        w = self.base_view(lv)
        bi = subst(w.bi, {PI: fi, PJ: fj})
        bj = subst(w.bj, {PI: fi, PJ: fj})
        vi = subst(gi, {PI: w.vi, PJ: w.vj})
        vj = subst(gj, {PI: w.vi, PJ: w.vj})
        m = band(w.mem, subst(mem, {PI: w.vi, PJ: w.vj}))
        return LV(lv.path, lv.idx, lv.t, View(r, c, bi, bj, vi, vj, m, scalar, w.arr if arr is None else arr), lv.noalias)

    def block(self, v, r0, c0, h, w, scalar=False):
        self.idx_event(v, r0, c0, h, w)
        if isinstance(v, LV):
            i, j = var(PI), var(PJ)
            ik, jk = (is_const(h) == 1), (is_const(w) == 1)
            fi = r0 if ik else add(i, r0)
            fj = c0 if jk else add(j, c0)
            mi = eq0(sub(i, r0), True) if ik else band(ge0(sub(i, r0), True), gt0(sub(add(r0, h), i), True))
            mj = eq0(sub(j, c0), True) if jk else band(ge0(sub(j, c0), True), gt0(sub(add(c0, w), j), True))
            bw = self.base_view(lv=v)
            if is_const(bw.c) == 1:
                mj = TRUE
                fj = ZERO
            if is_const(bw.r) == 1:
                mi = TRUE
                fi = ZERO
            return self.mkview(v, h, w, fi, fj, ZERO if ik else sub(i, r0), ZERO if jk else sub(j, c0), band(mi, mj), scalar)
        b = self.at(v.b, add(var(PI), r0) if is_const(h) != 1 else r0, add(var(PJ), c0) if is_const(w) != 1 else c0)
        if scalar:
            return Num(b, v.ty)
        return Num(b, v.ty, h, w, v.arr, v.al)

    def dims(self, v):
        if isinstance(v, LV):
            w = self.base_view(v)
            return w.r, w.c
        if v.scalar:
            return ONE, ONE
        return v.r, v.c

    def idx_event(self, v, r0, c0, h, w):
        if self.dry:
            return
        try:
            r, c = self.dims(v)
        except Exception:
            return
        self.event("idx", (v.path if isinstance(v, LV) else "<expr>", ((r0, h, r), (c0, w, c))))

    def vec_idx_event(self, lv, i, n):
        if not self.dry:
            self.event("idx", (lv.path, ((i, ONE, n),)))

    # ------------------------------------------------------------ events
    def event(self, kind, data):
        if self.dry:
            return
        f = self.frames[-1].fn if self.frames else None
        self.events.append(Event(kind, data, self.pc, ((f or {}).get("file", ""), self.line, (f or {}).get("q", ""))))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return VOID
        l = e.get("l")
        if l:
            self.line = l
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            return Opq(unk("expr:" + e["k"]))
        return m(e)

    def rv(self, e):
        return self.load(self.ev(e))

    def force(self, lz):
        fr = self.frames[-1]
        saved = fr.env
        fr.env = lz.env
        try:
            return self.ev(lz.e)
        finally:
            fr.env = saved

    def x_int(self, e):
        return Num(const(int(e["v"])), "i")

    def x_flt(self, e):
        s = str(e["v"])
        try:
            return Num(const(Fraction(s)), "d")
        except Exception:
            if "nan" in s.lower():
                return Num(FUN("nanconst", ()), "d")
            return Num(scale(FUN("infconst", ()), -1 if s.startswith("-") else 1), "d")

    def x_bool(self, e):
        return Num(TRUE if e["v"] in (True, "true", 1) else FALSE, "b")

    def x_str(self, e):
        return Opq(("str", e["v"]))

    def x_chr(self, e):
        return Num(const(int(e["v"])) if str(e["v"]).lstrip("-").isdigit() else unk("chr"), "i", chr=True)

    def x_null(self, e):
        return Ptr(None)

    def x_this(self, e):
        return Ptr(self.frames[-1].this)

    def x_ref(self, e):
        if "cv" in e:
            return Num(const(Fraction(e["cv"])), "d")
        dk = e["dk"]
        if dk in ("local", "static", "binding"):
            env = self.frames[-1].env
            b = env.get(e["id"])
            if b is not None:
                return b
            if "civ" in e:
                return Num(const(int(e["civ"])), "i")
            return Opq(unk("var:" + str(e.get("n"))))
        if "civ" in e:
            k = self.ty.kind(e["t"])
            return Num(const(int(e["civ"])), "i") if k != ("num", "b") else Num(TRUE if int(e["civ"]) else FALSE, "b")
        if dk == "func":
            return Fn("func", e["f"])
        if dk == "global":
            q = e.get("q", e.get("n"))
            if q in ("std::cout", "std::cerr", "std::clog"):
                return Stream(q, "std")
            if q.startswith("std::placeholders::"):
                return Opq(("ph", int(q.rsplit("_", 1)[1])))
            k = self.ty.kind(e["t"])
            lv = LV("global:" + q, (), self.ty.strip(e["t"]))
            if k[0] in ("num", "ten", "vec", "rec", "arr"):
                self.regtype(lv)
                return lv
            return Opq(unk("global:" + q))
        return Opq(unk("ref:" + str(e.get("n"))))

    def deref(self, v):
        v = self.load(v)
        if isinstance(v, Ptr):
            if v.lv is None:
                return Opq(unk("null"))
            return v.lv
        if isinstance(v, Iter):
            n = self.read(v.lv.path + ".#n", v.lv.idx, ("num", "i"))
            return self.elem(v.lv, v.i, n)
        return v

    def x_mem(self, e):
        if e.get("static"):
            if "civ" in e:
                return Num(const(int(e["civ"])), "i")
            return Opq(unk("static:" + e["n"]))
        if e.get("f"):
            return Fn("memfn", (e["f"], self.ev(e["o"])))
        o = self.ev(e["o"])
        if e.get("arrow") or isinstance(o, Ptr):
            o = self.deref(o)
        if isinstance(o, Lazy):
            o = self.force(o)
        return self.member(o, e["n"], e["t"])

    def member(self, o, n, t):
        t = self.ty.strip(t)
        if isinstance(o, LV):
            cls = self.ty.name(o.t)
            k = self.ty.kind(o.t)
            if k[0] == "tup" and n in ("first", "second"):
                return LV(o.path + (".<0>" if n == "first" else ".<1>"), o.idx, t)
            n = self.canon.get((cls, n), n)
            return LV(o.path + "." + n, o.idx, t)
        if isinstance(o, Agg):
            k = self.ty.kind(o.t)
            if k[0] == "tup" and n in ("first", "second"):
                pre = ".<0>" if n == "first" else ".<1>"
            else:
                n = self.canon.get((self.ty.name(o.t), n), n)
                pre = "." + n
            return self.subagg(o, pre, t)
        return Opq(unk("member:" + n))

    def subagg(self, o, pre, t):
        lv = {r[len(pre):]: b for r, b in o.lv.items() if r.startswith(pre)}
        ob = {r[len(pre):]: b for r, b in o.ob.items() if r.startswith(pre)}
        return self.unagg(Agg(t, lv, ob))

    def unagg(self, a):
        """aggregate of leaf type -> Num"""
        k = self.ty.kind(a.t)
        if k[0] == "num":
            b = a.lv.get("", unk("leaf"))
            return Num(truth(b) if k[1] == "b" else b, k[1])
        if k[0] == "ten":
            r = const(k[1]) if k[1] >= 0 else a.lv.get(".#r", unk("dim"))
            c = const(k[2]) if k[2] >= 0 else a.lv.get(".#c", unk("dim"))
            return Num(a.lv.get("", unk("leaf")), k[4], r, c, k[3])
        if k[0] == "dec":
            return Dec(k[1], Num(a.lv[".#mat"], "d", a.lv[".#r"], a.lv[".#c"]))
        if k[0] in ("vec", "arr", "rec", "tup", "opt"):
            return a
        if "" in a.ob:
            return a.ob[""]
        return Opq(unk("obj"))

    def elem(self, v, i, n=None):
        """element i of a vector/array value or lvalue"""
        if isinstance(v, LV):
            k = self.ty.kind(v.t)
            if n is not None:
                self.vec_idx_event(v, i, n)
            return LV(v.path + "[]", v.idx + (i,), self.ty.strip(k[1]))
        if isinstance(v, Agg):
            k = self.ty.kind(v.t)
            if k[0] == "opt":
                return self.subagg(v, ".val", k[1])
            lv = {}
            for r, b in v.lv.items():
                if r.startswith("[]"):
                    tot = r.count("[]")
                    mp = {PL(0): i}
                    for q in range(1, tot):
                        mp[PL(q)] = var(PL(q - 1))
                    lv[r[2:]] = subst(b, mp)
            return self.unagg(Agg(self.ty.strip(k[1]), lv))
        return Opq(unk("elem"))

    def vsize(self, v):
        if isinstance(v, LV):
            k = self.ty.kind(v.t)
            if k[0] == "arr":
                return const(k[2] or 0)
            return self.read(v.path + ".#n", v.idx, ("num", "i"))
        if isinstance(v, Agg):
            k = self.ty.kind(v.t)
            if k[0] == "arr":
                return const(k[2] or 0)
            return v.lv.get(".#n", unk("size"))
        return unk("size")

    def x_cast(self, e):
        v = self.load(self.ev(e["a"]))
        ck = e["ck"]
        if ck == "ToVoid":
            return VOID
        if isinstance(v, (Ptr, Fn, Opq, Dec)):
            if ck == "PointerToBoolean":
                return self.num(v)
            return v
        n = self.num(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return Num(self.tob(n), "b")
        if ck == "IntegralToFloating":
            return Num(n.b, "d")
        if ck == "FloatingToIntegral":
            return Num(FUN("trunc", (n.b,)), "i")
        if ck == "IntegralCast":
            k = self.ty.kind(e["t"])
            return Num(n.b, "i" if k == ("num", "i") else n.ty)
        return n

    def x_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(self.ev(e["a"]))
            if op == "&&" and a is FALSE:
                return Num(FALSE, "b")
            if op == "||" and a is TRUE:
                return Num(TRUE, "b")
            sel = a if op == "&&" else bnot(a)
            st0, pc0 = self.st, self.pc
            self.st = st0.copy()
            self.pc = band(pc0, sel)
            nt = len(self.throws)
            b = self.cond(self.ev(e["b"]))
            if self.st.c != st0.c or self.st.o != st0.o:
                self.st = self.merge2(sel, self.st, st0)
            else:
                self.st = st0
            self.pc = pc0
            return Num(band(a, b) if op == "&&" else bor(a, b), "b")
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op in ("->*", ".*"):
            o, f = self.ev(e["a"]), self.rv(e["b"])
            if op == "->*":
                o = self.deref(o) if not (isinstance(o, LV) and self.ty.kind(o.t)[0] == "rec") else o
            if isinstance(f, Fn) and f.kind == "func":
                return Fn("memfn", (f.a, o))
            return Opq(unk("memptr"))
        a, b = self.rv(e["a"]), self.rv(e["b"])
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if op in ("==", "!="):
                same = TRUE if (getattr(a, "lv", 1) is None) == (getattr(b, "lv", 2) is None) else FALSE
                return Num(same if op == "==" else bnot(same), "b")
            return Opq(unk("ptrop"))
        a, b = self.num(a), self.num(b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        if op in ("&", "|", "^") and a.ty == "b" and b.ty == "b":
            return Num({"&": band, "|": bor, "^": lambda x, y: ite(x, bnot(y), y)}[op](a.b, b.b), "b")
        return self.arith(op, a, b)

    def x_un(self, e):
        op = e["op"]
        if op == "*":
            return self.deref(self.ev(e["a"]))
        if op == "&":
            a = self.ev(e["a"])
            if isinstance(a, Fn):
                return a
            if isinstance(a, LV):
                return Ptr(a)
            return Opq(unk("addrof"))
        if op in ("++", "--"):
            lv = self.ev(e["a"])
            old = self.num(lv)
            new = Num(add(old.b, const(1 if op == "++" else -1)), old.ty)
            self.store(lv, new)
            return old if e.get("post") else lv
        v = self.rv(e["a"])
        if op == "!":
            return Num(bnot(self.cond(v)), "b")
        if op == "-":
            n = self.num(v)
            return Num(neg(n.b), "i" if n.ty == "b" else n.ty)
        if op == "+":
            return v
        return Num(unk("un" + op, (self.num(v).b,)), "i")

    def x_assign(self, e):
        b = self.rv(e["b"])
        a = self.ev(e["a"])
        self.store(a, b)
        return a

    def x_cassign(self, e):
        b = self.num(self.rv(e["b"]))
        a = self.ev(e["a"])
        cur = self.num(a)
        op = e["op"][:-1]
        if op in ("&", "|", "^"):
            if cur.ty == "b":
                cb = self.tob(b)
                r = {"&": band, "|": bor, "^": lambda x, y: ite(x, bnot(y), y)}[op](cur.b, cb)
                self.store(a, Num(r, "b"))
                return a
            self.store(a, Num(unk("op" + op, (cur.b, b.b)), cur.ty))
            return a
        r = self.arith(op, cur, b)
        self.store(a, r)
        return a

    def x_cond(self, e):
        c = self.simp(self.cond(self.ev(e["c"])))
        if c is TRUE:
            return self.ev(e["a"])
        if c is FALSE:
            return self.ev(e["b"])
        st0, pc0 = self.st, self.pc
        self.st = st0.copy()
        self.pc = band(pc0, c)
        a = self.ev(e["a"])
        sa = self.st
        la = a
        av = self.load(a)
        self.st = st0.copy()
        self.pc = band(pc0, bnot(c))
        b = self.ev(e["b"])
        bv = self.load(b)
        sb = self.st
        self.pc = pc0
        self.st = self.merge2(c, sa, sb)
        if isinstance(a, LV) and isinstance(b, LV) and a.path == b.path and a.idx == b.idx and a.view is None and b.view is None:
            return a
        return self.select(c, a, b) or self.vmerge(c, av, bv)

    def select(self, c, a, b):
        """an lvalue that stands for a or b"""
        if isinstance(a, LV) and isinstance(b, LV) and a.view is None and b.view is None and not a.noalias and not b.noalias and self.ty.strip(a.t) == self.ty.strip(b.t) \
                and self.ty.kind(a.t)[0] in ("num", "ten", "vec", "arr", "rec", "tup", "opt") and not any(lk[0] == "obj" for _, lk in self.ty.leaves(a.t)):
            lv = LV(self.fresh("sel"), (), a.t)
            self.sel[lv.path] = (c, a, b)
            return lv
        return None

    def vmerge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            ty = a.ty if a.ty == b.ty else ("d" if "d" in (a.ty, b.ty) else "i")
            if a.scalar and b.scalar:
                return Num(ite(c, a.b, b.b), ty)
            r = ite(c, a.r if a.r is not None else ONE, b.r if b.r is not None else ONE)
            cc = ite(c, a.c if a.c is not None else ONE, b.c if b.c is not None else ONE)
            return Num(ite(c, a.b, b.b), ty, r, cc, a.arr, a.al | b.al)
        if isinstance(a, Agg) and isinstance(b, Agg):
            lv = {}
            for r in set(a.lv) | set(b.lv):
                x, y = a.lv.get(r, unk("leaf")), b.lv.get(r, unk("leaf"))
                lv[r] = ite(c, x, y)
            return Agg(a.t, lv, {**b.ob, **a.ob})
        if isinstance(a, LV) and isinstance(b, LV) and a.path == b.path and a.idx == b.idx and a.view is b.view:
            return a
        if isinstance(a, LV) or isinstance(b, LV):
            return self.vmerge(c, self.load(a), self.load(b))
        if isinstance(a, Dec) and isinstance(b, Dec) and a.kind == b.kind:
            return Dec(a.kind, self.vmerge(c, a.mat, b.mat))
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a if a.n == b.n else Opq(("str?",))
        if isinstance(a, Stream) and isinstance(b, Stream):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            lv = self.select(c, a.lv, b.lv)
            if lv is not None:
                return Ptr(lv)
        return Opq(unk("merge"))

    def x_sub(self, e):
        a = self.ev(e["a"])
        i = self.num(self.ev(e["i"])).b
        if isinstance(a, Ptr) and a.lv is not None:
            return self.block_lin(a.lv, i)
        return self.elem(a, i, self.vsize(a))

    def block_lin(self, lv, i):
        return Opq(unk("ptridx"))

    def x_new(self, e):
        lv = LV(self.fresh("heap"), (), self.ty.strip(e["at"]))
        self.regtype(lv)
        if e.get("init"):
            self.store(lv, self.rv(e["init"]))
        return Ptr(lv, "own")

    def x_throw(self, e):
        t = e.get("a") or {}
        ty = self.ty.name(t["t"]) if "t" in t else "rethrow"
        self.throws.append((self.pc, ty, ((self.frames[-1].fn or {}).get("file"), e.get("l"), (self.frames[-1].fn or {}).get("q"))))
        self.pc = FALSE
        return VOID

    def x_zinit(self, e):
        return self.zero_of(e["t"])

    def zero_of(self, t):
        k = self.ty.kind(t)
        if k[0] == "num":
            return Num(FALSE if k[1] == "b" else ZERO, k[1])
        if k[0] in ("vec", "arr", "rec", "tup"):
            lv = {}
            for rel, lk in self.ty.leaves(t):
                if lk[0] != "obj":
                    lv[rel] = ZERO
            return Agg(self.ty.strip(t), lv)
        if k[0] in ("ptr", "sptr"):
            return Ptr(None)
        return Opq(unk("zinit"))

    def x_ilist(self, e):
        t = self.ty.strip(e["t"])
        k = self.ty.kind(t)
        args = [self.rv(a) for a in e["args"]]
        if k[0] == "num":
            return args[0] if args else self.zero_of(t)
        if k[0] == "arr":
            while len(args) == 1 and isinstance(args[0], Agg) and self.ty.kind(args[0].t)[0] == "arr" and args[0].t != t:
                args = [Agg(t, args[0].lv, args[0].ob)]
                return args[0]
            if len(args) == 1 and isinstance(args[0], Agg) and args[0].t == t:
                return args[0]
            return self.listagg(t, k[1], args, False)
        if k[0] == "vec":
            return self.listagg(t, k[1], args, True)
        if k[0] == "rec":
            lv = LV(self.fresh("agg"), (), t)
            self.regtype(lv)
            fs = self.ty.fields(t)
            for i, f in enumerate(fs):
                m = LV(lv.path + "." + f["n"], (), self.ty.strip(f["t"]))
                if i < len(args):
                    self.store(m, args[i])
                else:
                    self.default_init(m, f)
            return self.load(lv)
        if k[0] == "tup":
            lv = LV(self.fresh("tup"), (), t)
            for i, a in enumerate(args):
                self.store(LV(lv.path + ".<%d>" % i, (), k[1][i]), a)
            return self.load(lv)
        return Opq(("list", args))

    def listagg(self, t, et, args, vec):
        lv = {}
        for rel, lk in self.ty.leaves(et):
            if lk[0] == "obj":
                continue
            b = ZERO
            for i in range(len(args) - 1, -1, -1):
                a = args[i]
                if isinstance(a, Agg):
                    x = a.lv.get(rel, ZERO)
                    tot = rel.count("[]")
                    if tot:
                        x = subst(x, {PL(q): var(PL(q + 1)) for q in range(tot)})
                elif isinstance(a, Num):
                    x = a.b if rel == "" else (a.r if rel == ".#r" else a.c)
                else:
                    x = unk("elt")
                b = x if i == len(args) - 1 else ite(eq0(sub(var(PL(0)), const(i)), True), x, b)
            lv["[]" + rel] = b
        if vec:
            lv[".#n"] = const(len(args))
        return Agg(self.ty.strip(t), lv)

    def x_unk(self, e):
        for s in e.get("subs") or []:
            try:
                self.ev(s)
            except Unsup:
                pass
        return Opq(unk("clang:" + str(e.get("c"))))

    def x_lambda(self, e):
        env = dict(self.frames[-1].env)
        for c in e.get("caps", []):
            if c.get("init") is not None:
                env[c["id"]] = self.materialise(self.rv(c["init"]), c["init"]["t"], c["n"])
            elif not c.get("this") and not c.get("byref"):
                b = env.get(c.get("id"))
                if isinstance(b, LV):
                    v = self.load(b)
                    env[c["id"]] = self.materialise(v, b.t, c["n"]) if not isinstance(v, (Fn, Ptr, Opq, Stream)) else v
        return Fn("lambda", (e, self.frames[-1].this), env)

    # ------------------------------------------------------------ construction
    def default_init(self, lv, field=None):
        if field is not None and field.get("init") is not None:
            self.store(lv, self.rv_in_this(field["init"], lv))
            return
        k = self.ty.kind(lv.t)
        if k[0] == "rec":
            self.construct(lv, None, [])
            return
        nm = lv.path.split("@")[0] if lv.path.startswith("$") else lv.path
        for rel, lk in self.ty.leaves(lv.t):
            if lk[0] == "obj":
                self.st.o.pop(lv.path + rel, None)
                continue
            p = lv.path + rel
            ids = self.reg(p, lk)
            if rel.endswith(".#n") or rel.endswith(".#r") or rel.endswith(".#c") or rel.endswith(".#has"):
                v = ZERO if not (lk[0] == "num" and rel.endswith(("#r", "#c")) and k[0] == "ten" and False) else ZERO
                self.write(p, lv.idx, lk, v)
            else:
                n = len(lv.idx)
                ids2 = tuple(PL(int(v.a[0][2:]) - n) if v.a[0].startswith("#L") else v for v in ids[n:])
                self.write(p, lv.idx, lk, SYM(UNINIT + (lv.path[1:].split("@")[0] if lv.path.startswith("$") else lv.path) + rel, ids2))
                SYMTY[UNINIT + (lv.path[1:].split("@")[0] if lv.path.startswith("$") else lv.path) + rel] = lk[4] if lk[0] == "ten" else lk[1]

    def rv_in_this(self, e, lv):
        return self.rv(e)

    def construct(self, lv, fref, args, e=None):
        """run a constructor on storage lv.  args: evaluated values"""
        t = lv.t
        k = self.ty.kind(t)
        if k[0] == "rec":
            self.regtype(lv)
            fn = self.p.fns.get(fref["fn"]) if fref and "fn" in fref else None
            if fn is None and fref is None:
                cand = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == t and not f.get("params")]
                cand = cand or [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == t
                                and f["q"].rsplit("::", 1)[0] == self.ty.name(t) and False]
                fn = cand[0] if cand else None
            if fn is None or fn.get("body") is None:
                if len(args) == 1 and isinstance(args[0], Agg):
                    self.store(lv, args[0])
                    return
                if len(args) == 1 and isinstance(args[0], LV):
                    self.store(lv, args[0])
                    return
                for f in self.ty.fields(t):
                    self.default_init(LV(lv.path + "." + self.canon.get((self.ty.name(t), f["n"]), f["n"]), lv.idx, self.ty.strip(f["t"])), f)
                return
            env = self.bind_params(fn, args)
            fr = Frame(fn, env, lv)
            self.frames.append(fr)
            try:
                done = set()
                inits = fn.get("inits") or []
                for i in inits:
                    if "m" in i:
                        done.add(i["m"])
                fs = {f["n"]: f for f in self.ty.fields(t)}
                order = [f["n"] for f in self.ty.fields(t)]
                im = {i["m"]: i for i in inits if "m" in i}
                for n in order:
                    f = fs[n]
                    m = LV(lv.path + "." + self.canon.get((self.ty.name(t), n), n), lv.idx, self.ty.strip(f["t"]))
                    if n in im:
                        self.init_storage(m, im[n]["e"])
                    else:
                        self.default_init(m, f)
                for i in inits:
                    if "deleg" in i:
                        x = i["e"]
                        if x and x.get("k") == "ctor":
                            self.construct(lv, x["f"], [self.ev(a) for a in x["args"]])
            finally:
                self.frames.pop()
            self.run_fn(fn, fr)
            return
        self.store(lv, self.construct_value(t, args, fref, e))

    def init_storage(self, lv, e):
        """initialise storage from an initialiser expression"""
        if e is None:
            self.default_init(lv)
            return
        if e["k"] == "ctor":
            k = self.ty.kind(lv.t)
            if k[0] == "rec" and not e.get("copy") and self.ty.strip(e["t"]) == lv.t:
                args = [self.ev(a) for a in e["args"]]
                self.construct(lv, e["f"], args, e)
                return
            if not e["args"] and k[0] in ("ten", "vec", "num", "dec", "opt"):
                self.regtype(lv)
                self.default_init(lv)
                return
        if e["k"] == "ilist" and not e["args"] and self.ty.kind(lv.t)[0] == "rec":
            self.construct(lv, None, [])
            return
        v = self.rv(e)
        if e["k"] == "ctor" and e.get("dflt") and self.ty.kind(lv.t)[0] in ("sptr", "fn", "op"):
            self.st.o.pop(lv.path, None)
            k = self.ty.kind(lv.t)
            if k[0] == "sptr":
                pk = self.ty.kind(k[1])
                if pk[0] in ("dec", "num", "vec") or (pk[0] == "ten" and len(pk) == 5):
                    self.regtype(lv)
                    self.default_init(LV(lv.path + "->", lv.idx, k[1]))
                else:
                    self.st.o[lv.path] = Ptr(None)
            return
        self.regtype(lv)
        self.store(lv, v)

    def x_ctor(self, e):
        t = self.ty.strip(e["t"])
        k = self.ty.kind(t)
        if e.get("copy") and len(e["args"]) >= 1:
            if len(k) == 6 and k[5] == "Ref":
                return self.ev(e["args"][0])
            v = self.rv(e["args"][0])
            return v
        if k[0] == "rec":
            lv = LV(self.fresh("obj"), (), t)
            self.construct(lv, e["f"], [self.ev(a) for a in e["args"]], e)
            return self.load(lv) if self.ty.kind(t)[0] != "op" else lv
        args = [self.ev(a) for a in e["args"]]
        return self.construct_value(t, args, e["f"], e)

    def construct_value(self, t, args, fref=None, e=None):
        if e is not None and e.get("args"):
            keep = [a for a, x in zip(args, e["args"]) if not (x.get("k") == "ctor" and "PrivateType" in (x.get("f") or {}).get("q", ""))]
            if len(e["args"]) == len(args):
                args = keep
        k = self.ty.kind(t)
        if len(k) == 6 and k[0] == "ten" and k[5] == "Ref":
            args = args[:1]
        k = self.ty.kind(t)
        lst = bool(e and e.get("list"))
        if k[0] == "num":
            return self.num(args[0]) if args else self.zero_of(t)
        if k[0] == "ten":
            if len(k) == 6 and k[5] == "Map":
                return self.mk_map(t, k, args)
            if not args:
                lv = LV(self.fresh("tmp"), (), t)
                self.regtype(lv)
                self.default_init(lv)
                return self.load(lv)
            if len(args) == 1:
                a = args[0]
                if isinstance(a, LV) and len(k) == 6 and k[5] == "Ref":
                    return a
                v = self.load(a)
                if isinstance(v, Diag):
                    return self.diagmat(v)
                if isinstance(v, Num) and not v.scalar:
                    return Num(v.b, v.ty, const(k[1]) if k[1] >= 0 else v.r, const(k[2]) if k[2] >= 0 else v.c, k[3], v.al)
                if isinstance(v, Num) and v.scalar:
                    return self.uninit_ten(k, v.b, ONE if k[2] == 1 or k[2] < 0 else const(k[2]))
                if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[0] == "list":
                    args = v.n[1]
                    lst = True
                else:
                    return Num(unk("tenctor"), "d", unk("d"), unk("d"))
            if len(args) == 2 and k[1] < 0 and not lst:
                if k[2] == 1:
                    pass
                else:
                    return self.uninit_ten(k, self.num(args[0]).b, self.num(args[1]).b)
            if len(args) == 2 and k[1] >= 0 and k[2] >= 0 and k[1] * k[2] != 2 and not lst:
                return self.uninit_ten(k, const(k[1]), const(k[2]))
            # coefficient list
            vals = [self.num(a).b for a in args]
            x = var(PI) if k[2] == 1 else var(PJ)
            b = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                b = ite(eq0(sub(x, const(i)), True), vals[i], b)
            n = const(len(vals))
            return Num(b, k[4], n if k[2] == 1 else ONE, ONE if k[2] == 1 else n, k[3])
        if k[0] == "vec":
            if not args:
                return Agg(t, {".#n": ZERO, **{"[]" + r: ZERO for r, lk in self.ty.leaves(k[1]) if lk[0] != "obj"}})
            a0 = self.load(args[0])
            if isinstance(a0, Opq) and isinstance(a0.n, tuple) and a0.n[0] == "list":
                return self.listagg(t, k[1], a0.n[1], True)
            if isinstance(a0, Agg) and self.ty.kind(a0.t)[0] in ("vec",):
                return Agg(t, a0.lv, a0.ob)
            if isinstance(a0, Agg) and self.ty.kind(a0.t)[0] == "arr":
                return Agg(t, {**a0.lv, ".#n": const(self.ty.kind(a0.t)[2])}, a0.ob)
            if isinstance(a0, Iter) and len(args) > 1:
                b0 = self.load(args[1])
                if isinstance(b0, Iter):
                    src = self.load(a0.lv)
                    lv = {}
                    for r, b in src.lv.items():
                        lv[r] = subst(b, {PL(0): add(var(PL(0)), a0.i)}) if r.startswith("[]") else sub(b0.i, a0.i)
                    return Agg(t, lv, src.ob)
            n = self.num(a0).b
            lv = LV(self.fresh("vec"), (), t)
            self.regtype(lv)
            self.default_init(lv)
            self.vec_resize(lv, n, args[1] if len(args) > 1 and not self.is_alloc(args[1]) else None)
            return self.load(lv)
        if k[0] == "arr":
            return self.load(args[0]) if args else self.zero_of(t)
        if k[0] == "dec":
            if not args:
                return Dec(k[1], Num(unk("emptydec"), "d", ZERO, ZERO))
            m = self.ten(args[0])
            return Dec(k[1], m)
        if k[0] == "op" and k[1].startswith("Eigen::IOFormat"):
            sep = [" ", "\n", "", "", "", ""]
            for i, a in enumerate(args[2:8]):
                a = self.load(a)
                if not (isinstance(a, Opq) and isinstance(a.n, tuple) and a.n[0] == "str"):
                    return Opq("format")
                sep[i] = str(a.n[1])
            return Opq(("fmt",) + tuple(sep))
        if k[0] in ("sptr", "ptr"):
            if not args:
                return Ptr(None)
            v = self.load(args[0])
            return v
        if k[0] == "fn":
            return self.load(args[0]) if args else Opq("emptyfn")
        if k[0] == "tup":
            lv = LV(self.fresh("tup"), (), t)
            self.regtype(lv)
            for i, a in enumerate(args):
                self.store(LV(lv.path + ".<%d>" % i, (), self.ty.strip(k[1][i])), a)
            return self.load(lv)
        if k[0] == "opt":
            lv = LV(self.fresh("opt"), (), t)
            self.regtype(lv)
            self.default_init(lv)
            if args:
                a0 = self.load(args[0])
                if isinstance(a0, Agg) and self.ty.kind(a0.t)[0] == "opt":
                    return a0
                if not (isinstance(a0, Opq)):
                    self.write(lv.path + ".#has", (), ("num", "b"), TRUE)
                    self.store(LV(lv.path + ".val", (), self.ty.strip(k[1])), a0)
            return self.load(lv)
        if k[0] == "iter" and args:
            return self.load(args[0])
        nm = self.ty.name(t)
        if "ofstream" in nm or "basic_fstream" in nm:
            tgt = self.target(args[0]) if args else nm
            self.event("open", (nm, tgt))
            return Stream(tgt, "file")
        if "stringstream" in nm:
            return Stream(nm, "mem")
        if nm.startswith("std::basic_string") and args and "stream" not in nm:
            a = self.load(args[0])
            if isinstance(a, Opq) and isinstance(a.n, tuple) and a.n[0] == "str" and all(isinstance(self.load(x), Opq) for x in args[1:]):
                return a
        if k[0] == "expr" and args:
            v = self.load(args[0])
            if isinstance(v, Num):
                return v
        if args and nm.startswith("std::") and ("initializer_list" in nm):
            return self.load(args[0])
        return Opq(("obj", nm))

    def is_alloc(self, a):
        return isinstance(a, Opq)

    def uninit_ten(self, k, r, c):
        if k[1] >= 0:
            r = const(k[1])
        if k[2] >= 0:
            c = const(k[2])
        ids = ((var(PI),) if k[1] != 1 else ()) + ((var(PJ),) if k[2] != 1 else ())
        return Num(SYM(UNINIT + "tensor", ids), k[4], r, c, k[3])

    def mk_map(self, t, k, args):
        p = self.load(args[0])
        ns = [self.num(a).b for a in args[1:] if isinstance(self.load(a), Num)]
        if isinstance(p, Ptr) and p.lv is not None:
            lv = p.lv
            bk = self.ty.kind(lv.t)
            if bk[0] == "ten":
                w = self.base_view(lv)
                r, c = w.r, w.c
                if len(ns) == 1:
                    n = ns[0]
                    if is_const(c) == 1:
                        return lv
                    fi = self.imod(var(PI), r)
                    fj = self.idiv(var(PI), r)
                    gi = add(var(PI), mul(var(PJ), r))
                    return self.mkview(lv, n, ONE, fi, fj, gi, ZERO, TRUE)
                if len(ns) == 2 and ns[0] is r and ns[1] is c:
                    return lv
                if len(ns) == 2 and is_const(c) == 1:
                    fi = add(var(PI), mul(var(PJ), ns[0]))
                    return self.mkview(lv, ns[0], ns[1], fi, ZERO, self.imod(var(PI), ns[0]), self.idiv(var(PI), ns[0]), TRUE)
            if bk[0] == "vec" and len(ns) == 1:
                src = self.load(lv)
                b = subst(src.lv.get("[]", unk("map")), {PL(0): var(PI)})
                return Num(b, "d", ns[0], ONE)
        return Num(unk("map"), "d", ns[0] if ns else unk("d"), ns[1] if len(ns) > 1 else ONE)

    def imod(self, x, r):
        return FUN("imod", (x, r))

    def idiv(self, x, r):
        return FUN("idiv", (x, r))

    # ------------------------------------------------------------ statements
    def simp(self, c):
        if self.pc is TRUE or self.pc is FALSE or c is TRUE or c is FALSE:
            return c
        return assume(c, self.pc)

    def merge2(self, c, a, b):
        """state = c ? a : b"""
        if a is b:
            return a
        out = St()
        for p in set(a.c) | set(b.c):
            x, y = a.c.get(p), b.c.get(p)
            if x is y:
                out.c[p] = x
                continue
            if x is None or y is None:
                if p.startswith("$"):
                    # variable local to one branch
                    out.c[p] = x if y is None else y
                    continue
                if x is None:
                    x = self.initial(p)
                else:
                    y = self.initial(p)
            out.c[p] = ite(c, x, y)
        for p in set(a.o) | set(b.o):
            x, y = a.o.get(p), b.o.get(p)
            out.o[p] = x if x is not None else y
            if x is not None and y is not None and x is not y:
                out.o[p] = self.omerge(c, x, y)
        return out

    def omerge(self, c, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.lv is not None and y.lv is not None and x.lv.path == y.lv.path:
                return x
            if x.lv is None and y.lv is None:
                return x
            if x.lv is None:
                return y
            if y.lv is None:
                return x
        if isinstance(x, Fn) and isinstance(y, Fn) and x.a is y.a:
            return x
        if isinstance(x, LV) and isinstance(y, LV) and x.path == y.path:
            return x
        if isinstance(x, Opq) and isinstance(y, Opq):
            return x
        return Opq(unk("omerge"))

    def ex(self, s):
        """execute; returns nothing; self.pc FALSE means not falling through"""
        if s is None or self.pc is FALSE:
            return
        l = s.get("l")
        if l:
            self.line = l
        getattr(self, "s_" + s["k"], self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unsup("stmt " + s["k"] + " " + str(s.get("c")))

    s_unk = s_unknown

    def s_block(self, s):
        for x in s["b"]:
            if self.pc is FALSE:
                return
            self.ex(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        for v in s["v"]:
            self.declare(v)

    def const_init(self, e):
        """an initialiser that refers to no variable state"""
        if isinstance(e, dict):
            if e.get("k") == "this" or (e.get("k") == "ref" and e.get("dk") in ("local", "static", "global", "binding", "other") and "cv" not in e and "civ" not in e):
                return False
            return all(self.const_init(x) for x in e.values())
        if isinstance(e, list):
            return all(self.const_init(x) for x in e)
        return True

    def declare(self, v):
        env = self.frames[-1].env
        t = v["t"]
        init = v.get("init")
        if v.get("static") and not (v.get("cst") and init is not None and self.const_init(init)):
            k = self.ty.kind(t)
            lv = LV("static:" + v["n"], (), self.ty.strip(t))
            self.regtype(lv)
            self.event("static", (v["n"],))
            env[v["id"]] = lv
            return
        if self.ty.isref(t):
            x = self.ev(init)
            if isinstance(x, (Num, Agg, Dec)):
                st = self.ty.strip(t)
                if self.ty.kind(st)[0] == "expr":
                    env[v["id"]] = Lazy(init, dict(env))
                else:
                    env[v["id"]] = self.materialise(x, st, v["n"])
            else:
                env[v["id"]] = x
            if v.get("bind"):
                self.bindings(v, env[v["id"]])
            return
        k = self.ty.kind(t)
        if k[0] == "expr":
            nm = k[1]
            if init is not None:
                x = init
                env[v["id"]] = Lazy(init, dict(env)) if nm not in ("Eigen::TriangularView",) else self.ev(init)
                # evaluate once for effects / value when it is an immediate proxy
                val = self.ev(init)
                if not isinstance(val, (Num, LV, Agg)):
                    env[v["id"]] = val
                if isinstance(val, LV):
                    env[v["id"]] = val
            return
        if k[0] in ("fn",) or (k[0] == "op") or k[0] in ("ptr", "sptr"):
            lv = LV(self.fresh(v["n"]), (), self.ty.strip(t))
            self.regtype(lv)
            if init is not None:
                x = self.ev(init)
                if k[0] == "op" and isinstance(x, LV):
                    x = self.load(x)
                if k[0] == "op":
                    x2 = x
                    if isinstance(x, Opq) and isinstance(x.n, tuple) and x.n and x.n[0] == "obj" and "stream" in str(x.n[1]):
                        x2 = Stream(v["n"], "mem")
                    env[v["id"]] = x2
                    if isinstance(x2, (Num, Agg, Dec)):
                        env[v["id"]] = self.materialise(x2, t, v["n"])
                    return
                self.store(lv, x)
            env[v["id"]] = lv
            return
        lv = LV(self.fresh(v["n"]), (), self.ty.strip(t))
        self.regtype(lv)
        if len(k) == 6 and k[0] == "ten" and init is not None:
            x = self.ev(init)
            env[v["id"]] = x if isinstance(x, LV) else self.materialise(x, t, v["n"])
            return
        if init is None:
            self.default_init(lv)
        else:
            self.init_storage(lv, init)
        env[v["id"]] = lv
        if v.get("bind"):
            self.bindings(v, lv)

    def bindings(self, v, base):
        env = self.frames[-1].env
        k = self.ty.kind(v["t"])
        for i, b in enumerate(v["bind"]):
            if k[0] == "tup":
                env[b["id"]] = LV(base.path + ".<%d>" % i, base.idx, self.ty.strip(k[1][i])) if isinstance(base, LV) else self.subagg(base, ".<%d>" % i, k[1][i])
            elif k[0] == "arr":
                env[b["id"]] = self.elem(base, const(i))
            elif k[0] == "rec":
                f = self.ty.fields(k[1])[i]
                env[b["id"]] = self.member(base, f["n"], f["t"])
            else:
                env[b["id"]] = Opq(unk("binding"))

    def s_if(self, s):
        if s.get("init"):
            self.ex(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        c = self.simp(self.cond(self.ev(s["c"])))
        if self.pc is FALSE:
            return
        if c is TRUE:
            self.ex(s["a"])
            return
        if c is FALSE:
            self.ex(s.get("b"))
            return
        st0, pc0 = self.st, self.pc
        env0 = self.frames[-1].env
        self.st = st0.copy()
        self.pc = band(pc0, c)
        self.ex(s["a"])
        sa, pa = self.st, self.pc
        self.st = st0.copy()
        self.pc = band(pc0, bnot(c))
        self.ex(s.get("b"))
        sb, pb = self.st, self.pc
        if pa is FALSE:
            self.st, self.pc = sb, pb
        elif pb is FALSE:
            self.st, self.pc = sa, pa
        else:
            self.st = self.merge2(c, sa, sb)
            self.pc = bor(pa, pb)

    def s_ret(self, s):
        fr = self.frames[-1]
        v = VOID
        if s.get("e") is not None:
            rt = fr.fn.get("ret") if fr.fn else None
            if rt is not None and self.ty.isref(rt):
                v = self.ev(s["e"])
                if isinstance(v, Lazy):
                    v = self.load(v)
            else:
                v = self.rv(s["e"])
                if isinstance(v, Num) and not v.scalar:
                    v = Num(v.b, v.ty, v.r, v.c, v.arr)
        if self.pc is FALSE:
            return
        fr.rets.append((self.pc, self.st, v, self.loopdepth()))
        self.pc = FALSE

    def loopdepth(self):
        return len(self.loopstack)

    def s_break(self, s):
        self.loopstack[-1]["breaks"].append((self.pc, self.st))
        self.pc = FALSE

    def s_cont(self, s):
        self.loopstack[-1]["conts"].append((self.pc, self.st))
        self.pc = FALSE

    def s_switch(self, s):
        v = self.num(self.ev(s["c"])).b
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten labels
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] == "case":
                items.append(("case", x["v"]))
                flat(x["b"])
            elif x["k"] == "default":
                items.append(("default", None))
                flat(x["b"])
            else:
                items.append(("stmt", x))
        for x in body:
            flat(x)
        vals = [self.num(self.ev(x)).b for kd, x in items if kd == "case"]
        self.loopstack.append({"breaks": [], "conts": [], "switch": True})
        st0, pc0 = self.st.copy(), self.pc
        none = TRUE
        for w in vals:
            none = band(none, bnot(eq0(sub(v, w), True)))
        self.pc = FALSE
        first_ = True
        for kd, x in items:
            if kd in ("case", "default"):
                c = none if kd == "default" else eq0(sub(v, self.num(self.ev_const(x)).b), True)
                npc = band(pc0, c)
                if npc is FALSE:
                    continue
                if self.pc is FALSE:
                    self.st, self.pc = st0.copy(), npc
                else:
                    self.st = self.merge2(c, st0, self.st)
                    self.pc = bor(self.pc, npc)
            else:
                self.ex(x)
        ctx = self.loopstack.pop()
        outs = list(ctx["breaks"])
        if self.pc is not FALSE:
            outs.append((self.pc, self.st))
        if not any(kd == "default" for kd, _ in items):
            npc = band(pc0, none)
            if npc is not FALSE:
                outs.append((npc, st0))
        if ctx["conts"]:
            self.loopstack[-1]["conts"] += ctx["conts"]
        self.join(outs)

    def ev_const(self, e):
        return self.ev(e)

    def join(self, outs):
        outs = [(p, s) for p, s in outs if p is not FALSE]
        if not outs:
            self.pc = FALSE
            return
        pc, st = outs[-1]
        for p, s in reversed(outs[:-1]):
            st = self.merge2(p, s, st)
            pc = bor(pc, p)
        self.st, self.pc = st, pc

    def s_try(self, s):
        n = len(self.throws)
        st0 = self.st.copy()
        self.ex(s["b"])
        if len(self.throws) > n:
            raise Unsup("try with throw")

    # ------------------------------------------------------------ calls
    def bind_params(self, fn, args):
        env = {}
        for i, p in enumerate(fn["params"]):
            t = p["t"]
            a = args[i] if i < len(args) else Opq(unk("arg"))
            k = self.ty.kind(t)
            if isinstance(a, Lazy):
                a = self.force(a)
            isr = self.ty.isref(t)
            refl = len(k) == 6 and k[0] == "ten"
            if isr or refl:
                if isinstance(a, LV):
                    env[p["id"]] = a
                elif isinstance(a, (Num, Agg, Dec)):
                    if k[0] == "expr":
                        env[p["id"]] = a
                    elif k[0] in ("num", "ten", "vec", "arr", "rec", "tup", "opt", "dec"):
                        env[p["id"]] = self.materialise(a, t, p["n"] or "arg")
                    else:
                        env[p["id"]] = a
                elif isinstance(a, (Ptr,)) and k[0] in ("ptr", "sptr"):
                    lv = LV(self.fresh(p["n"] or "arg"), (), self.ty.strip(t))
                    self.st.o[lv.path] = a
                    env[p["id"]] = lv
                else:
                    env[p["id"]] = a
            else:
                v = self.load(a)
                if k[0] in ("num", "ten", "vec", "arr", "rec", "tup", "opt", "dec", "iter"):
                    if isinstance(v, (Num, Agg, Dec, Iter)):
                        env[p["id"]] = self.materialise(v, t, p["n"] or "arg")
                    else:
                        env[p["id"]] = v
                elif k[0] in ("ptr", "sptr"):
                    lv = LV(self.fresh(p["n"] or "arg"), (), self.ty.strip(t))
                    self.st.o[lv.path] = v
                    env[p["id"]] = lv
                else:
                    env[p["id"]] = v
        return env

    def run_fn(self, fn, fr):
        """execute the body of fn in frame fr (already set up); returns value"""
        if len(self.frames) > self.MAXDEPTH:
            raise Unsup("recursion")
        if self.frames and sum(1 for f in self.frames if f.fn is fn) > 3:
            raise Unsup("recursion")
        pc0 = self.pc
        self.pc = TRUE
        nt, ne = len(self.throws), len(self.events)
        ls = self.loopstack
        self.loopstack = []
        self.frames.append(fr)
        ln = self.line
        try:
            self.ex(fn.get("body"))
        finally:
            self.frames.pop()
            self.loopstack = ls
        outs = [(p, s, v) for p, s, v, _ in fr.rets]
        if self.pc is not FALSE:
            outs.append((self.pc, self.st, VOID))
        val = VOID
        if not outs:
            self.pc = FALSE
        else:
            pc, st, val = outs[-1]
            for p, s, v in reversed(outs[:-1]):
                if val is not VOID or v is not VOID:
                    # values are loaded in their own state
                    if isinstance(v, LV) and isinstance(val, LV) and v.path == val.path and v.idx == val.idx and v.view is val.view:
                        pass
                    else:
                        sv = self.st
                        self.st = s
                        v1 = self.load(v)
                        self.st = st
                        v2 = self.load(val)
                        self.st = sv
                        val = self.vmerge(p, v1, v2)
                st = self.merge2(p, s, st)
                pc = bor(pc, p)
            self.st = st
            self.pc = band(pc0, pc)
        if pc0 is not TRUE:
            for i in range(nt, len(self.throws)):
                p, a, b = self.throws[i]
                self.throws[i] = (band(pc0, p), a, b)
            for i in range(ne, len(self.events)):
                self.events[i].pc = band(pc0, self.events[i].pc)
        self.line = ln
        return val

    def call_fn(self, fn, this, args):
        self.nsites += 1
        env = self.bind_params(fn, args)
        return self.run_fn(fn, Frame(fn, env, this))

    def call_value(self, f, args, fref=None, rt=None):
        """call a function value"""
        f = self.load(f)
        if isinstance(f, Ptr) and f.lv is not None:
            f = self.load(f.lv)
        if isinstance(f, Fn):
            if f.kind == "lambda":
                e, this = f.a
                fb = e.get("fnbody")
                if fb is None:
                    insts = e.get("insts") or []
                    fb = self.pick_inst(insts, args)
                    if fb is None:
                        self.lost.append("generic lambda")
                        return Opq(unk("generic-lambda"))
                env = dict(f.env)
                env.update(self.bind_params(fb, args))
                return self.run_fn(fb, Frame(fb, env, this))
            if f.kind == "bind":
                target, bound = f.a
                out = []
                for b in bound:
                    if isinstance(b, Opq) and isinstance(b.n, tuple) and b.n[0] == "ph":
                        i = b.n[1] - 1
                        out.append(args[i] if i < len(args) else Opq(unk("ph")))
                    else:
                        out.append(b)
                return self.call_value_on(target, out)
            if f.kind == "func":
                return self.call_ref(f.a, args, None)
            if f.kind == "memfn":
                fr, o = f.a
                return self.call_method(fr, o, args)
            if f.kind == "sym":
                return self.opaque(f.a[0].split(".")[-1], args, rt, f.a, self.sym_fref(f, fref))
        self.lost.append("call of an unknown function value")
        return Opq(unk("callvalue"))

    def pick_inst(self, insts, args):
        for f in insts:
            if len(f["params"]) == len(args):
                ok = True
                for p, a in zip(f["params"], args):
                    k = self.ty.kind(p["t"])
                    v = self.load(a)
                    if isinstance(v, Num) and v.scalar and k[0] != "num":
                        ok = False
                    if isinstance(v, Num) and not v.scalar and k[0] not in ("ten", "expr"):
                        ok = False
                    if isinstance(v, Num) and not v.scalar and k[0] == "ten":
                        for d, n in ((k[1], v.r), (k[2], v.c)):
                            cn = is_const(n)
                            if d >= 0 and cn is not None and cn != d:
                                ok = False
                if ok:
                    return f
        return insts[0] if len(insts) == 1 else None

    def call_value_on(self, target, args):
        if isinstance(target, Fn) and target.kind == "func":
            f = target.a
            if f.get("cls") is not None and not f.get("static"):
                o = args[0]
                o = self.load(o) if not isinstance(o, LV) or self.ty.kind(o.t)[0] in ("ptr", "sptr") else o
                if isinstance(o, Ptr):
                    o = o.lv
                return self.call_method(f, o, args[1:])
            return self.call_ref(f, args, None)
        return self.call_value(target, args)

    def x_call(self, e):
        return self.call_ref(e["f"], [self.ev(a) for a in e["args"]], e)

    def x_icall(self, e):
        f = self.ev(e["o"])
        return self.call_value(f, [self.ev(a) for a in e["args"]])

    def call_ref(self, f, args, e):
        q = f["q"]
        if q.startswith("std::") or q.startswith("__") or "::" not in q:
            r = self.std_call(q, f, args, e)
            if r is not None:
                return r
        if q.startswith("Eigen::"):
            r = self.eig_static(q, f, args, e)
            if r is not None:
                return r
        fn = self.p.fns.get(f.get("fn")) if "fn" in f else None
        if self.is_opaque_cls(f):
            return self.opaque(q.split("::")[-1], args, e["t"] if e else (fn or {}).get("ret"), None, f)
        a = self.anchor_for(f, fn)
        if a is not None:
            return self.apply_anchor(a, None, args, fn)
        if fn is not None and fn.get("body") is not None:
            self.calls.add(q)
            return self.call_fn(fn, self.frames[-1].this if f.get("cls") is not None and not f.get("static") else None, args)
        return self.unknown_call(q, args, e)

    def unknown_call(self, q, args, e):
        k = self.ty.kind(e["t"]) if e else ("void",)
        nf = []
        for a in args:
            v = self.load(a)
            if isinstance(v, Num):
                nf.append(v.b if v.scalar else LAM([PI, PJ], v.b))
            if isinstance(a, LV) and not a.path.startswith("$"):
                pass
        if any(isinstance(self.load(a), (Fn, Iter, Ptr)) for a in args):
            self.lost.append("effect of %s" % q)
        for i, a in enumerate(args):
            # conservatively: an unknown function may modify non-const lvalue arguments
            if isinstance(a, LV):
                for rel, lk in self.ty.leaves(a.t):
                    if lk[0] != "obj":
                        self.write(a.path + rel, a.idx, lk, unk("effect:" + q))
        if q.split("::")[-1] in ("printf", "puts", "fprintf", "putchar", "vprintf", "perror", "fputs", "fwrite", "print", "println"):
            self.event("out", ("std", q, ("opq", None)))
        self.notes.append("unknown call " + q)
        if k[0] == "num":
            return Num(unk(q, nf), k[1])
        if k[0] == "ten":
            return Num(FUN("unk:" + q, tuple(nf), (var(PI), var(PJ))), "d", const(k[1]) if k[1] >= 0 else unk("d"), const(k[2]) if k[2] >= 0 else unk("d"))
        return Opq(unk(q))

    def is_opaque_cls(self, f):
        if f.get("cls") is None:
            return False
        n = self.ty.name(f["cls"])
        return n.split("<")[0].split("::")[-1] in self.opaque_classes

    # opaque model functions --------------------------------------------
    def nfarg(self, v):
        """value -> NF/LAM node for use as an argument of an opaque function"""
        v = self.load(v)
        if isinstance(v, Num):
            if v.scalar:
                return v.b
            return STRUCT("T", v.r, v.c, LAM([PI, PJ], v.b))
        if isinstance(v, Agg):
            return self.aggarg(v)
        if isinstance(v, Fn):
            return self.fnkey(v)
        if isinstance(v, Diag):
            d = self.diagmat(v)
            return STRUCT("T", d.r, d.c, LAM([PI, PJ], d.b))
        if isinstance(v, Ptr):
            return STRUCT("ptr", v.lv.path if v.lv is not None else "null")
        return unk("arg")

    def aggarg(self, v):
        xs = []
        for rel, lk in self.ty.leaves(v.t):
            if lk[0] == "obj" or rel not in v.lv:
                continue
            vs = [PL(i) for i in range(rel.count("[]"))] + [PI, PJ]
            xs.append(STRUCT(rel, lk, LAM(vs, v.lv[rel])))
        return STRUCT("A", *xs)

    def fnkey(self, f):
        """canonical key of a function value: its result on symbolic arguments"""
        if f.kind == "sym":
            return STRUCT("fn", f.a[0])
        params = self.fnparams(f)
        if params is None:
            return unk("fnkey")
        st0, pc0 = self.st, self.pc
        th0, ev0 = self.throws, self.events
        self.st = st0.copy()
        self.pc = TRUE
        self.throws, self.events = [], []
        self.dry += 1
        try:
            args, outs = [], []
            for i, (t, lv) in enumerate(params):
                p = "@arg%d" % i
                a = LV(p, (), self.ty.strip(t))
                self.regtype(a)
                args.append(a)
                if lv:
                    outs.append((i, a))
            r = self.load(self.call_value(f, args))
            xs = ["fn"]
            if isinstance(r, (Num, Agg)):
                xs.append(self.nfarg(r))
            for i, a in outs:
                xs.append(self.nfarg(a))
            return STRUCT(*xs)
        finally:
            self.dry -= 1
            self.st, self.pc = st0, pc0
            self.throws, self.events = th0, ev0

    def fnparams(self, f):
        """[(type, is_out)] of a function value"""
        def of(fn):
            out = []
            for p in fn["params"]:
                k = self.ty.kind(p["t"])
                x = self.ty.t[p["t"]]
                isout = self.ty.nonconst_ref(p["t"]) or (len(k) == 6 and k[5] == "Ref" and not self.ref_const(p["t"]))
                out.append((p["t"], isout))
            return out
        if f.kind == "lambda":
            fb = f.a[0].get("fnbody")
            return of(fb) if fb else None
        if f.kind == "bind":
            target, bound = f.a
            if isinstance(target, Fn) and target.kind == "func":
                pt = target.a.get("pt") or []
                fn = self.p.fns.get(target.a.get("fn")) if "fn" in target.a else None
                off = 1 if target.a.get("cls") is not None and not target.a.get("static") else 0
                n = max([b.n[1] for b in bound if isinstance(b, Opq) and isinstance(b.n, tuple) and b.n[0] == "ph"] + [0])
                res = [None] * n
                for i, b in enumerate(bound):
                    if isinstance(b, Opq) and isinstance(b.n, tuple) and b.n[0] == "ph":
                        t = pt[i - off]
                        k = self.ty.kind(t)
                        res[b.n[1] - 1] = (t, self.ty.nonconst_ref(t) or (len(k) == 6 and k[5] == "Ref" and not self.ref_const(t)))
                return res if all(res) else None
        if f.kind == "func":
            pt = f.a.get("pt") or []
            return [(t, self.ty.nonconst_ref(t)) for t in pt]
        return None

    def ref_const(self, t):
        """Eigen::Ref<const X> (read only)?"""
        x = self.ty.t[self.ty.strip(t)]
        a = x["a"][0]
        return bool(a.get("c") or a.get("const") or (self.ty.isref(t) and self.ty.t[t].get("const")))

    def out_params(self, f, n):
        pt = (f or {}).get("pt") or []
        res = []
        for i in range(n):
            if i < len(pt):
                t = pt[i]
                k = self.ty.kind(t)
                if len(k) == 6 and k[5] == "Ref":
                    res.append(not self.ref_const(t))
                else:
                    res.append(self.ty.nonconst_ref(t))
            else:
                res.append(False)
        return res

    DIMFN = {"ineqConst": ("ineqDim",)}

    def opaque(self, name, args, rt, symfn=None, f=None):
        """pure model function: result and out-params are functions of the in-arguments"""
        if symfn is not None and rt is None:
            rt = self.fn_ret(symfn)
        outs = self.out_params(f, len(args))
        ins = tuple(self.nfarg(a) for a, o in zip(args, outs) if not o)
        nm = name + ("/%d" % len(args) if name.startswith("calc") else "")
        if not self.dry:
            self.event("model", (name, ins, [self.shape_of(a) for a, o in zip(args, outs) if o]))
        for i, (a, o) in enumerate(zip(args, outs)):
            if o:
                if isinstance(a, Lazy):
                    a = self.force(a)
                if not isinstance(a, LV):
                    continue
                k = self.ty.kind(a.t)
                if k[0] == "ten":
                    r, c = self.dims(a)
                    ids = ((var(PI),) if is_const(r) != 1 else ()) + ((var(PJ),) if is_const(c) != 1 else ())
                    self.store(LV(a.path, a.idx, a.t, a.view), Num(FUN("%s.%d" % (nm, i), ins, ids), "d", r, c))
                else:
                    self.store(a, self.opq_value(a.t, "%s.%d" % (nm, i), ins))
        if rt is None:
            return VOID
        return self.opq_value(rt, nm, ins)

    def shape_of(self, a):
        try:
            if isinstance(a, Lazy):
                a = self.force(a)
            if isinstance(a, LV) and self.ty.kind(a.t)[0] == "ten":
                return self.dims(a)
        except Exception:
            pass
        return (ONE, ONE)

    def fn_ret(self, symfn):
        return self.sym_ret.get(symfn[0].split(".")[-1]) if hasattr(self, "sym_ret") else None

    def opq_value(self, rt, nm, ins):
        t = self.ty.strip(rt)
        k = self.ty.kind(t)
        if k[0] == "num":
            if k[1] == "b":
                return Num(BFUN(nm, ins), "b")
            SYMTY["fun:" + nm] = k[1]
            return Num(FUN(nm, ins), k[1])
        if k[0] == "ten":
            r = const(k[1]) if k[1] >= 0 else self.dim_of(nm, ins, 0)
            c = const(k[2]) if k[2] >= 0 else self.dim_of(nm, ins, 1)
            ids = ((var(PI),) if k[1] != 1 else ()) + ((var(PJ),) if k[2] != 1 else ())
            return Num(FUN(nm, ins, ids), k[4], r, c, k[3])
        if k[0] in ("vec", "arr", "rec", "tup"):
            lv = {}
            for rel, lk in self.ty.leaves(t):
                if lk[0] == "obj":
                    continue
                ids = tuple(var(PL(i)) for i in range(rel.count("[]")))
                if lk[0] == "ten":
                    ids += ((var(PI),) if lk[1] != 1 else ()) + ((var(PJ),) if lk[2] != 1 else ())
                if rel.endswith(".#r"):
                    lv[rel] = self.dim_of(nm, ins, 0)
                elif rel.endswith(".#c"):
                    lv[rel] = self.dim_of(nm, ins, 1)
                else:
                    lv[rel] = FUN(nm + rel, ins, ids)
            return Agg(t, lv)
        if k[0] == "void":
            return VOID
        return Opq(FUN(nm, ins))

    def dim_of(self, nm, ins, ax):
        base = nm.split(".")[0].split("/")[0]
        d = {"ineqConst": "ineqDim", "input_limits_func_": "inputDim"}.get(base)
        if d and ax == 0 and ins:
            return FUN(d, (ins[0],))
        return FUN(nm + (".#r" if ax == 0 else ".#c"), ins)

    # methods -------------------------------------------------------------
    def x_mcall(self, e):
        f = e.get("f")
        o = self.ev(e["o"])
        if e.get("arrow") and not (isinstance(o, LV) and self.ty.kind(o.t)[0] == "rec"):
            o = self.deref(o) if not (isinstance(o, Fn)) else o
        if isinstance(o, Lazy):
            o = self.force(o)
        if f is None:
            return self.call_value(o, [self.ev(a) for a in e["args"]])
        return self.call_method(f, o, [self.ev(a) for a in e["args"]], e)

    def x_op(self, e):
        f = e.get("f") or {}
        op = e["op"]
        q = f.get("q", "")
        if op == "=" and len(e["args"]) == 2:
            b = self.ev(e["args"][1])
            bv = self.load(b)
            if isinstance(bv, Num) and isinstance(b, LV) and False:
                pass
            a = self.ev(e["args"][0])
            if isinstance(a, Lazy):
                a = self.force(a)
            if isinstance(a, LV):
                fn = self.p.fns.get(f.get("fn")) if "fn" in f else None
                if fn is not None and fn.get("body") is not None:
                    return self.call_fn(fn, a, [b])
                self.store(a, bv)
                return a
            if isinstance(a, Opq) and isinstance(a.n, tuple) and a.n[0] == "tie":
                k = self.ty.kind(bv.t) if isinstance(bv, Agg) else ("?",)
                if k[0] == "tup" and len(k[1]) == len(a.n[1]):
                    for q, x in enumerate(a.n[1]):
                        if isinstance(x, LV):
                            self.store(x, self.load(self.subagg(bv, ".<%d>" % q, self.ty.strip(k[1][q]))))
                    return a
                self.lost.append("assignment to std::tie")
                return a
            if isinstance(a, (Opq, Stream)):
                if not (isinstance(a, Stream) or isinstance(a.n, tuple)):
                    self.lost.append("assignment to an unmodelled object")
                return a
            raise Unsup("assign to " + type(a).__name__)
        args = [self.ev(a) for a in e["args"]]
        fn = self.p.fns.get(f.get("fn")) if "fn" in f else None
        if fn is not None and fn.get("body") is not None:
            if f.get("cls") is not None and not f.get("static"):
                return self.call_fn(fn, args[0] if isinstance(args[0], LV) else self.materialise(self.load(args[0]), f["cls"]), args[1:])
            return self.call_fn(fn, None, args)
        return self.operator(op, args, e, f)

    def operator(self, op, args, e, f):
        args = [self.force(a) if isinstance(a, Lazy) else a for a in args]
        a = args[0]
        if op == "()":
            if isinstance(a, LV) and self.ty.kind(a.t)[0] == "ten" or isinstance(a, Num):
                return self.coeff(a, args[1:])
            av = self.load(a)
            if isinstance(av, Fn):
                if av.kind == "sym":
                    return self.opaque(av.a[0].split(".")[-1], args[1:], e["t"], av.a, self.sym_fref(av, f))
                return self.call_value(av, args[1:])
            return self.call_value(av, args[1:])
        if op == "[]":
            if isinstance(a, LV):
                k = self.ty.kind(a.t)
                if k[0] == "ten":
                    return self.coeff(a, args[1:])
                if k[0] in ("vec", "arr"):
                    i = self.num(args[1]).b
                    return self.elem(a, i, self.vsize(a))
                if k[0] == "sptr":
                    return Opq(unk("sptr[]"))
            if isinstance(a, Num):
                return self.coeff(a, args[1:])
            if isinstance(a, Agg):
                return self.elem(a, self.num(args[1]).b)
            av = self.load(a)
            if isinstance(av, Iter):
                return self.elem(av.lv, add(av.i, self.num(args[1]).b), self.vsize(av.lv))
            return Opq(unk("op[]"))
        if op == "->":
            v = self.load(a)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Iter):
                return Ptr(self.deref(v))
            if isinstance(v, Agg) and self.ty.kind(v.t)[0] == "opt" and isinstance(a, LV):
                return Ptr(LV(a.path + ".val", a.idx, self.ty.strip(self.ty.kind(a.t)[1])))
            return Opq(unk("op->"))
        if op == "*" and len(args) == 1:
            v = self.load(a)
            if isinstance(v, (Ptr, Iter)):
                return self.deref(v)
            if isinstance(a, LV) and self.ty.kind(a.t)[0] == "opt":
                return LV(a.path + ".val", a.idx, self.ty.strip(self.ty.kind(a.t)[1]))
            return Opq(unk("op*"))
        if op in ("<<", ">>"):
            return self.stream(args, e)
        if op == "," and isinstance(a, Opq) and isinstance(a.n, tuple) and a.n[0] == "comma":
            return self.comma_next(a, args[1])
        if op in ("++", "--") and isinstance(self.load(a), Iter):
            it = self.load(a)
            new = Iter(it.lv, add(it.i, const(1 if op == "++" else -1)))
            self.store(a, new)
            return a if len(args) == 1 else it
        if op == "bool":
            return self.num(a)
        if len(args) == 1:
            v = self.load(a)
            if isinstance(v, Num):
                if op == "-":
                    return self.cwf(neg, v, "i" if v.ty == "b" else v.ty)
                if op == "!":
                    return self.cwf(bnot, Num(self.tob(v), "b", v.r, v.c, v.arr), "b")
                if op == "+":
                    return v
            if op == "!":
                return Num(bnot(self.cond(v)), "b")
            return Opq(unk("unop" + op))
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            base = op[:-1]
            bv = self.load(args[1])
            if isinstance(a, LV) and self.ty.kind(a.t)[0] == "iter":
                it = self.load(a)
                d = self.num(bv).b
                self.store(a, Iter(it.lv, add(it.i, d if base == "+" else neg(d))))
                return a
            cur = self.load(a)
            if isinstance(cur, Num):
                bv = self.ten(bv)
                if base == "*" and not bv.scalar and not (cur.arr or bv.arr):
                    r = self.matmul(cur, bv)
                elif base in ("+", "-", "*", "/"):
                    r = self.cw(base, cur, bv)
                elif base in ("&", "|"):
                    r = self.cw2(band if base == "&" else bor, cur, bv, "b")
                else:
                    r = Num(unk("op" + op), "d", cur.r, cur.c)
                # compound assignment reads the destination coefficient-wise
                al = bv.al
                r = Num(r.b, r.ty, r.r if r.r is not None else cur.r, r.c if r.c is not None else cur.c, r.arr, al)
                self.store(a, r)
                return a
            if isinstance(cur, (Opq,)):
                return a
            return Opq(unk("opassign"))
        b = args[1]
        av, bv = self.load(a), self.load(b)
        if isinstance(av, Iter) or isinstance(bv, Iter):
            if isinstance(av, Iter) and isinstance(bv, Iter):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    return Num(self.cmpb(op, av.i, bv.i, True), "b")
                if op == "-":
                    return Num(sub(av.i, bv.i), "i")
            if isinstance(av, Iter) and op in ("+", "-"):
                d = self.num(bv).b
                return Iter(av.lv, add(av.i, d if op == "+" else neg(d)))
            return Opq(unk("iterop"))
        if isinstance(av, (Ptr, Fn)) or isinstance(bv, (Ptr, Fn)):
            if op in ("==", "!="):
                p, o = (av, bv) if isinstance(av, (Ptr, Fn)) else (bv, av)
                isnull = TRUE if getattr(p, "lv", 0) is None else FALSE
                return Num(isnull if op == "==" else bnot(isnull), "b")
            return Opq(unk("ptrop"))
        if isinstance(av, Diag) or isinstance(bv, Diag):
            if op == "*":
                return self.diagmul(av, bv)
            av = self.diagmat(av) if isinstance(av, Diag) else av
            bv = self.diagmat(bv) if isinstance(bv, Diag) else bv
        if isinstance(av, Num) and isinstance(bv, Num):
            if op in ("+", "-", "/"):
                return self.cw(op, av, bv)
            if op == "*":
                if av.scalar or bv.scalar or av.arr or bv.arr:
                    return self.cw("*", av, bv)
                return self.matmul(av, bv)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                isint = av.ty in "ib" and bv.ty in "ib"
                bb = av.ty == "b" and bv.ty == "b"
                r = self.cw2(lambda x, y: self.cmpb(op, x, y, isint, bb), av, bv, "b")
                if not r.scalar and not (av.arr or bv.arr) and op in ("==", "!="):
                    q = f.get("q", "")
                    # matrix comparison yields a bool
                    neq = bnot(r.b) if op == "==" else r.b
                    x = self.exall(r, neq)
                    return Num(bnot(x) if op == "==" else x, "b")
                return r
            if op in ("&&", "||", "&", "|"):
                return self.cw2(band if op[0] == "&" else bor, Num(self.tob(av), "b", av.r, av.c, av.arr, av.al),
                                Num(self.tob(bv), "b", bv.r, bv.c, bv.arr, bv.al), "b")
            return Num(unk("op" + op), "d", av.r, av.c)
        if op in ("==", "!=") and isinstance(av, Agg) and isinstance(bv, Agg):
            x = self.vdiff(av, bv)
            if x is not None:
                return Num(x if op == "!=" else bnot(x), "b")
        if isinstance(av, Opq) or isinstance(bv, Opq):
            if op == "+":
                return Opq(("str+", av, bv))
            if isinstance(av, Opq) and isinstance(av.n, tuple) and av.n[0] == "time" and op == "-":
                return Opq(("time",))
            if op in ("==", "!=", "<", ">"):
                return Num(unk("cmpopq"), "b")
            return Opq(("opq" + op,))
        return Opq(unk("operator" + op))

    def sym_fref(self, fn, f):
        return f if f and f.get("pt") else None

    def diagmul(self, a, b):
        if isinstance(a, Diag) and isinstance(b, Diag):
            n, x = self.vec(a.v)
            _, y = self.vec(b.v)
            return Diag(Num(mul(x, y), "d", n, ONE))
        if isinstance(a, Diag):
            n, x = self.vec(a.v)
            if b.scalar:
                return Diag(Num(mul(x, b.b), "d", n, ONE))
            return Num(mul(x, b.b), "d", b.r, b.c, False, self.al_join(a.v, b, "prod"))
        n, y = self.vec(b.v)
        if a.scalar:
            return Diag(Num(mul(y, a.b), "d", n, ONE))
        return Num(mul(a.b, subst(y, {PI: var(PJ)})), "d", a.r, a.c, False, self.al_join(a, b.v, "prod"))

    def coeff(self, v, ix):
        ii = [self.num(x).b for x in ix]
        r, c = self.dims(v)
        if len(ii) == 1:
            if is_const(r) == 1 and is_const(c) != 1:
                return self.block(v, ZERO, ii[0], ONE, ONE, True)
            if is_const(c) != 1 and is_const(r) is None or (is_const(c) is not None and is_const(c) != 1):
                # linear index into a matrix (column major)
                if is_const(c) != 1 and not (isinstance(v, Num) and PJ not in v.b.fv):
                    return self.block(v, self.imod(ii[0], r), self.idiv(ii[0], r), ONE, ONE, True)
            return self.block(v, ii[0], ZERO, ONE, ONE, True)
        return self.block(v, ii[0], ii[1], ONE, ONE, True)

    def stream(self, args, e):
        s = args[0]
        sv = self.load(s)
        if isinstance(sv, Num) and not sv.scalar or (isinstance(s, LV) and self.ty.kind(s.t)[0] == "ten"):
            return self.comma_start(s, args[1])
        if isinstance(sv, Num) and sv.scalar:
            b = self.num(args[1])
            return Num(unk("shift", (sv.b, b.b)), "i")
        v = self.load(args[1])
        if isinstance(sv, Stream):
            self.event("out", (sv.kind, sv.name, self.outitem(args[1], v)))
            return sv
        return sv

    def target(self, a):
        """name of the file a stream is opened on"""
        if isinstance(a, LV):
            return "file:" + a.path
        v = self.load(a)
        if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[0] == "str":
            return "file:" + str(v.n[1])
        return "file:?"

    def outitem(self, a, v):
        if isinstance(v, Opq):
            return v.n if isinstance(v.n, tuple) else ("opq", v.n)
        if isinstance(v, Num):
            if v.chr and is_const(v.b) is not None:
                return ("str", chr(int(is_const(v.b))))
            if not v.scalar:
                return ("ten", v.b, v.r, v.c, v.fmt or (" ", "\n", "", "", "", ""))
            return ("num", v.b)
        if isinstance(v, Fn):
            q = v.a.get("q", "") if isinstance(v.a, dict) else ""
            return ("manip", q)
        return ("opq", None)

    def comma_start(self, lv, first):
        return self.comma_next(Opq(("comma", lv, 0, 0)), first)

    def comma_next(self, st, x):
        """comma initialiser over scalars and column-vector pieces; position tracked row-major"""
        _, lv, row, col = st.n
        v = self.load(x)
        if isinstance(v, Diag):
            v = self.diagmat(v)
        if not isinstance(lv, LV) or not isinstance(v, Num):
            self.havoc(lv, "comma")
            return Opq(("comma", None, 0, 0))
        r, c = self.dims(lv)
        row = const(row) if isinstance(row, int) else row
        col = const(col) if isinstance(col, int) else col
        if v.scalar:
            if c is ONE:
                self.store(self.block(lv, row, ZERO, ONE, ONE, True), v)
                return Opq(("comma", lv, add(row, ONE), ZERO))
            self.store(self.block(lv, row, col, ONE, ONE, True), v)
            w, h = ONE, ONE
        else:
            h, w = v.r, v.c
            self.store(self.block(lv, row, col, h, w), v)
            if c is ONE:
                return Opq(("comma", lv, add(row, h), ZERO))
        nc = add(col, w)
        if nc is c:
            return Opq(("comma", lv, add(row, h), ZERO))
        return Opq(("comma", lv, row, nc))

    # ------------------------------------------------------------ method dispatch
    def call_method(self, f, o, args, e=None):
        q = f["q"]
        name = q.split("::")[-1]
        cls = q.rsplit("::", 1)[0]
        if isinstance(o, Lazy):
            o = self.force(o)
        if isinstance(o, Ptr) and not cls.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
            o = o.lv if o.lv is not None else Opq(unk("null"))
        args = [self.force(a) if isinstance(a, Lazy) else a for a in args]
        if cls.startswith("Eigen::"):
            return self.eig_method(name, f, o, args, e)
        if cls.startswith("std::vector") or cls.startswith("std::array"):
            return self.vec_method(name, o, args, e)
        if cls.startswith("std::"):
            return self.std_method(cls, name, f, o, args, e)
        if self.is_opaque_cls(f):
            fn = self.p.fns.get(f.get("fn")) if "fn" in f else None
            if isinstance(o, LV) and "ode" in o.path:
                name += "@" + o.path.split(".")[-1].rstrip("->")        # which of several interchangeable objects
            return self.opaque(name, args, e["t"] if e else (fn or {}).get("ret"), None, f)
        fn = self.p.fns.get(f.get("fn")) if "fn" in f else None
        if isinstance(o, (Agg, Num)) and f.get("cls") is not None:
            o = self.materialise(o, f["cls"], "recv")
        a = self.anchor_for(f, fn)
        if a is not None:
            return self.apply_anchor(a, o, args, fn, e)
        if fn is not None and fn.get("body") is not None:
            if f.get("virt") and not (e or {}).get("qual") and not isinstance(o, LV):
                return self.opaque(name, args, e["t"] if e else fn.get("ret"), None, f)
            self.calls.add(q)
            return self.call_fn(fn, o, args)
        if name.startswith("operator"):
            return Opq(unk(q))
        return self.unknown_call(q, args, e)

    # contracts
    def anchor_for(self, f, fn):
        if not self.anchors or f.get("cls") is None:
            return None
        q = f["q"]
        key = ("::".join(q.split("::")[-2:]), len(f.get("pt") or []))
        a = self.anchors.get(key)
        if a is None:
            return None
        if self.frames and len(self.frames) == 1 and self.frames[0].fn is fn:
            return None
        return a

    def apply_anchor(self, a, this, args, fn, e=None):
        """replace a call by the contract: outputs are opaque functions of the read set"""
        base = this.path if isinstance(this, LV) else "this"
        bidx = this.idx if isinstance(this, LV) else ()
        ins = []
        for i, x in enumerate(args):
            if i in a.get("skip_args", ()):
                continue
            ins.append(self.nfarg(x))
        for rel, k in a["reads"]:
            p = base + rel
            b = self.read(p, bidx, k)
            n = rel.count("[]")
            vs = [PL(i) for i in range(n)] + [PI, PJ]
            ins.append(STRUCT(rel, k, LAM(vs, b)))
        ins = tuple(ins)
        nm = a["name"]
        self.calls.add(nm)
        self.event("anchor", (nm, base, ins))
        for rel, k in a["writes"]:
            p = base + rel
            ids = tuple(var(PL(i)) for i in range(rel.count("[]")))
            if k[0] == "ten":
                ids += ((var(PI),) if k[1] != 1 else ()) + ((var(PJ),) if k[2] != 1 else ())
            b = FUN(nm + ":" + rel, ins, ids) if not (k[0] == "num" and k[1] == "b") else BFUN(nm + ":" + rel, ins, ids)
            SYMTY["fun:" + nm + ":" + rel] = k[1] if k[0] == "num" else k[4]
            self.write(p, bidx, k, b)
        for i in a.get("outs", ()):
            x = args[i]
            if isinstance(x, LV):
                kk = self.ty.kind(x.t)
                if kk[0] == "ten":
                    r, c = self.dims(x)
                    ids = ((var(PI),) if is_const(r) != 1 else ()) + ((var(PJ),) if is_const(c) != 1 else ())
                    self.store(LV(x.path, x.idx, x.t, x.view), Num(FUN("%s:out%d" % (nm, i), ins, ids), "d", r, c))
        for p, o in a.get("objs", {}).items():
            self.st.o[base + p] = o
        if a.get("throws"):
            c = BFUN(nm + ":throws", ins)
            self.throws.append((band(self.pc, c), a["throws"], ("", self.line, nm)))
            self.pc = band(self.pc, bnot(c))
        rt = fn["ret"] if fn is not None else (e["t"] if e else None)
        if rt is None:
            return VOID
        k = self.ty.kind(rt)
        if k[0] == "void":
            return VOID
        if k[0] == "ten" and "ret_dims" in a:
            v = self.opq_value(rt, nm + ":ret", ins)
            return Num(v.b, v.ty, *a["ret_dims"](self, this, args))
        return self.opq_value(rt, nm + ":ret", ins)

    # ------------------------------------------------------------ running a root function
    def run_root(self, fn, this_t=None):
        """analyse fn as an entry point: parameters are symbolic"""
        t = fn.get("cls")
        this = LV("this", (), t) if t is not None else None
        if this is not None:
            self.regtype(this)
        env = {}
        for i, p in enumerate(fn["params"]):
            lv = LV("arg%d" % i, (), self.ty.strip(p["t"]))
            self.regtype(lv)
            env[p["id"]] = lv
        if fn.get("ctor"):
            self.construct(this, {"fn": fn["id"]}, [env[p["id"]] for p in fn["params"]])
            return VOID
        fr = Frame(fn, env, this)
        val = self.run_fn(fn, fr)
        return self.load(val) if not isinstance(val, LV) or fn.get("ret") is None else val
