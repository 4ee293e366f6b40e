"""Random interpretation of value graphs.  A graph is assigned a value under a random valuation of its free symbols
(Gulwani & Necula).  Two graphs that are not congruent are only reported as different when some valuation, generic or on
the decision boundaries, separates them; no part of the analysed program is compiled or executed for this."""
import math
import time
import zlib
from fractions import Fraction
import numpy as np
np.seterr(all="ignore")
from . import dag as T
from . import engine as E
from .dag import Node, RV, PI, PJ

NANV = float("nan")
INF = float("inf")


class Discard(Exception):
    """valuation leaves the explored range (non-terminating recurrence, ill-conditioned value)"""


class NonTerm(Discard):
    """a loop whose exit test stays false for CAP iterations under this valuation"""


def h64(s):
    a = zlib.crc32(s.encode())
    b = zlib.crc32(s.encode(), 0x9e3779b9)
    x = (a << 32) | b
    x ^= x >> 33
    x = (x * 0xff51afd7ed558ccd) & 0xffffffffffffffff
    x ^= x >> 33
    x = (x * 0xc4ceb9fe1a85ec53) & 0xffffffffffffffff
    x ^= x >> 33
    return x


def u01(s):
    return (h64(s) >> 11) / float(1 << 53)


class MInst:
    """one instance of a recurrence group under fixed outer values"""
    __slots__ = ("g", "env", "lid", "nv", "pos", "memo", "key")

    def __init__(self, g, env):
        self.g = g
        self.env = env
        self.lid = g.a[3]
        self.nv = g.a[4]
        self.pos = {n: i for i, n in enumerate(g.a[2])}
        self.memo = {}


SEED = [1]


class Val:
    """one valuation"""
    CAP = 250
    STEPS = 4000000

    def __init__(self, seed, mode, profile):
        self.seed = seed if SEED[0] == 1 else "%s~%d" % (seed, SEED[0])
        self.mode = mode
        self.pf = profile
        self.memo = {}
        self.insts = {}
        self.fragile = 0
        self.fvs = {}
        self.steps = 0
        self.symc = {}
        self.funw = {}
        self.kc = {}
        self.extra = {}
        self.poke = {}
        self.shift = {}
        self.again = None           # state left by an earlier call -> the argument it equals
        self.only = ()
        self.cmps = None            # comparisons of a free symbol or model result with a computed value
        self.funs = None            # model results read
        self.watch = None           # comparisons to record: node -> distances from the threshold, in order of evaluation
        self.flat = False
        self.ind = False
        self.jit = 0.0
        self.tw = None
        self.tie = mode in ("tie", "lit")
        profile.start(self)

    def fresh(self):
        t = Val("", self.mode, self.pf)
        t.seed, t.poke, t.flat, t.ind, t.N, t.dims, t.shift, t.tie, t.only, t.again = self.seed, self.poke, self.flat, self.ind, self.N, dict(self.dims), self.shift, self.tie, self.only, self.again
        return t

    def twin(self):
        """the same valuation with every real moved by rounding noise"""
        if self.tw is None:
            t = self.tw = self.fresh()
            t.jit = 1e-11
        return self.tw

    def unstable(self, sb, e, x, y):
        """the reference's own value moves that much under rounding noise"""
        if self.tie:
            return False
        try:
            z = self.twin().ev(sb, e)
        except (Discard, ValueError, OverflowError):
            return True
        if isinstance(z, tuple) or isinstance(x, tuple):
            return False
        if (z != z) != (x != x):
            return True
        if x != x or y != y or abs(x) == INF or abs(y) == INF:
            return False
        return not abs(z - x) <= 0.01 * abs(x - y)

    # ------------------------------------------------------------ random sources
    def rnd(self, *key):
        return u01("%s|%s|%s" % (self.seed, self.mode, "|".join(map(str, key))))

    def real(self, *key):
        """a random real for a free symbol under the current mode"""
        r = self.rnd(*key)
        m = self.mode
        if m == "tie":
            return (-1.0, -0.5, 0.0, 0.5, 1.0, 0.0)[int(r * 6)]
        v = 2.4 * r - 1.2
        if m.startswith("s"):
            return v * float(m[1:])
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, n, env):
        if not n.fv:
            r = self.memo.get(n)
            if r is None:
                r = self.ev0(n, env)
                self.memo[n] = r
            return r
        f = self.fvs.get(n)
        if f is None:
            f = self.fvs[n] = tuple(n.fv)
        try:
            key = (n,) + tuple([env[v] for v in f])
        except KeyError:
            key = (n,) + tuple([env.get(v) for v in f])
        r = self.memo.get(key)
        if r is None:
            r = self.ev0(n, env)
            self.memo[key] = r
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Discard("steps")

    def ev0(self, n, env):
        self.steps += 1
        if not self.steps & 0xfff:
            if T.DEADLINE[0] is not None and time.time() > T.DEADLINE[0]:
                raise T.Timeout()
        if self.steps > self.STEPS:
            raise Discard("steps")
        return getattr(self, "e_" + n.k)(n, n.a, env)

    def e_K(self, n, a, env):
        c = a[0]
        if c.denominator == 1:
            i = int(c)
            if abs(i) < 1000:
                return i
        return self.kmap(float(c))

    def kmap(self, f):
        if self.mode == "lit":
            # literals far from one are treated as symbols
            if f != 0 and (abs(f) < 1e-3 or abs(f) > 1e3):
                return 0.15 + 0.7 * u01("lit%s|%.9e" % (self.seed, abs(f)))
        return f

    def e_V(self, n, a, env):
        return env[n]

    def e_NEGINF(self, n, a, env):
        return -INF

    def e_ADD(self, n, a, env):
        c, items = a
        s = c
        if c.denominator == 1:
            s = int(c)
        else:
            s = float(c)
        for t, k in items:
            v = self.ev(t, env)
            if k == 1:
                s = s + v
            elif k == -1:
                s = s - v
            elif k.denominator == 1:
                s = s + int(k) * v
            else:
                s = s + self.kmap(float(k)) * v if self.mode == "lit" else s + float(k) * v
        return s

    def e_MUL(self, n, a, env):
        p = 1
        for t, e in a[0]:
            v = self.ev(t, env)
            if e < 0:
                for _ in range(-e):
                    p = self.div(p, v)
            else:
                for _ in range(e):
                    p = p * v
        return p

    def div(self, p, v):
        if v != v or p != p:
            return NANV
        if v == 0:
            if p == 0:
                return NANV
            return math.copysign(INF, p) * math.copysign(1.0, v)
        if -1e-7 < v < 1e-7 and self.mode != "lit":
            self.fragile += 1       # cancelled to rounding noise: nothing can be said about the quotient
        try:
            return p / v
        except OverflowError:
            return NANV

    def e_SYM(self, n, a, env):
        path = a[0]
        idx = tuple([self.ev(x, env) for x in a[1]])
        return self.sym(path, idx)

    def sym(self, path, idx):
        if path.startswith("uninit:"):      # storage without a value: which storage it was does not matter
            path, idx = "uninit:" + (E.SYMTY.get(path) or "d"), ()
            E.SYMTY[path] = path[7:]
        if self.again is not None:
            path, idx = self.again(path, idx)
        key = (path, idx)
        r = self.symc.get(key)
        if r is None:
            r = self.pf.sym(self, path, idx)
            if self.poke and r.__class__ is float:
                q = self.poke.get(("s", path, idx))
                if q is not None:
                    r = q(self, r, None)
            if self.jit and r.__class__ is float:
                r *= 1.0 + self.jit * (u01("jit%s%s" % (path, idx)) - 0.5)
            if path in self.shift:
                r = max(0, r + self.shift[path])
            self.symc[key] = r
        return r

    def note(self, n, a, env, x, y):
        for l, o in ((a[0], y), (a[1], x)):
            if o != o or abs(o) == INF:
                continue
            if l.k == "SYM":
                self.cmps.setdefault(("s", l.a[0], tuple([self.ev(z, env) for z in l.a[1]])), {}).setdefault(n, float(o))
            elif l.k == "FUN" and l.a[0] not in FUNS:
                self.cmps.setdefault(("f", l.a[0], tuple([self.ev(z, env) for z in l.a[2]])), {}).setdefault(n, float(o))

    def e_ITE(self, n, a, env):
        return self.ev(a[1], env) if self.ev(a[0], env) else self.ev(a[2], env)

    def e_AND(self, n, a, env):
        for x in a[0]:
            if not self.ev(x, env):
                return 0
        return 1

    def e_OR(self, n, a, env):
        for x in a[0]:
            if self.ev(x, env):
                return 1
        return 0

    def e_NOT(self, n, a, env):
        return 0 if self.ev(a[0], env) else 1

    def near(self, x, y):
        if x.__class__ is int and y.__class__ is int:
            return
        if x == y or x != x or y != y:
            return
        d = abs(x - y)
        if d == INF:
            return
        if d <= 1e-9 * max(abs(x), abs(y)):
            self.fragile += 1
        elif d < 1e-13:
            self.fragile += 1

    def e_LT(self, n, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if self.cmps is not None:
            self.note(n, a, env, x, y)
        if self.watch is not None and n in self.watch:
            self.watch[n].append(float(x) - float(y))
        self.near(x, y)
        return 1 if x < y else 0

    def e_LE(self, n, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if self.cmps is not None:
            self.note(n, a, env, x, y)
        if self.watch is not None and n in self.watch:
            self.watch[n].append(float(x) - float(y))
        self.near(x, y)
        return 1 if x <= y else 0

    def e_EQ(self, n, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if self.cmps is not None:
            self.note(n, a, env, x, y)
        if self.watch is not None and n in self.watch:
            self.watch[n].append(float(x) - float(y))
        self.near(x, y)
        return 1 if x == y else 0

    def e_IGT(self, n, a, env):
        return 1 if self.ev(a[0], env) > 0 else 0

    def e_IEQ(self, n, a, env):
        return 1 if self.ev(a[0], env) == 0 else 0

    def e_B(self, n, a, env):
        return 1 if self.ev(a[0], env) != 0 else 0

    def e_NAN(self, n, a, env):
        x = self.ev(a[1], env)
        if a[0] == "NAN":
            return 1 if x != x else 0
        return 1 if x in (INF, -INF) else 0

    def e_MAX(self, n, a, env):
        r = None
        for x in a[0]:
            v = self.ev(x, env)
            if v != v:
                return v
            if r is None or v > r:
                r = v
        return r

    def rng(self, n, env):
        k = self.ev(n, env)
        if k != k or k in (INF, -INF):
            raise Discard("range")
        if k.__class__ is not int:
            if k != int(k):
                raise Discard("range")
            k = int(k)
        if k > 400:
            raise Discard("range")
        return max(k, 0)

    def e_SUM(self, n, a, env):
        v, rn, body = a
        k = self.rng(rn, env)
        e = dict(env)
        s = 0
        for i in range(k):
            e[v] = i
            s = s + self.ev(body, e)
        return s

    def e_EX(self, n, a, env):
        v, rn, body = a
        e = dict(env)
        k = self.rng(rn, env) if rn is not None else 400
        for i in range(k):
            e[v] = i
            if self.ev(body, e):
                return 1
        if rn is None:
            raise NonTerm("ex")
        return 0

    def e_FIRST(self, n, a, env):
        v, rn, body = a
        e = dict(env)
        k = self.rng(rn, env) if rn is not None else None
        i = 0
        while k is None or i < k:
            e[v] = i
            if self.ev(body, e):
                return i
            i += 1
            if i > self.CAP and k is None:
                raise NonTerm("trip")
        return k

    def e_RED(self, n, a, env):
        v, rn, body, filt = a
        k = self.rng(rn, env)
        e = dict(env)
        r = -INF
        for i in range(k):
            e[v] = i
            if self.ev(filt, e):
                x = self.ev(body, e)
                if x != x:
                    return x
                if x > r:
                    r = x
        return r

    def e_MU(self, n, a, env):
        g, pos, cnt, idxs = a
        k = self.rng(cnt, env)
        f = self.fvs.get(g)
        if f is None:
            f = self.fvs[g] = tuple(g.fv)
        key = (g,) + tuple([env.get(v) for v in f])
        inst = self.insts.get(key)
        if inst is None:
            inst = self.insts[key] = MInst(g, {v: env[v] for v in f if v in env})
        return self.mval(inst, k, pos, tuple([self.ev(x, env) for x in idxs]))

    def mval(self, inst, t, pos, idx):
        key = (t, pos, idx)
        r = inst.memo.get(key)
        if r is not None:
            return r
        g = inst.g
        lam = g.a[0][pos] if t == 0 else g.a[1][pos]
        e = dict(inst.env)
        for v, x in zip(lam.a[0], idx):
            e[v] = x
        if t > 0:
            e[inst.nv] = t - 1
            e[RV(inst.lid)] = (inst, t - 1)
        r = self.ev(lam.a[1], e)
        inst.memo[key] = r
        return r

    def e_PHI(self, n, a, env):
        lid, path, idxs = a
        b = env.get(RV(lid))
        idx = tuple([self.ev(x, env) for x in idxs])
        if b is None:
            return self.sym("phi:%s.%s" % (lid, path), idx)
        inst, t = b
        return self.mval(inst, t, inst.pos[path], idx)

    # ------------------------------------------------------------ functions
    def mat(self, lam, r, c, env):
        m = np.empty((r, c))
        vs = lam.a[0]
        body = lam.a[1]
        e = dict(env)
        for i in range(r):
            e[vs[-2]] = i
            for j in range(c):
                e[vs[-1]] = j
                m[i, j] = self.ev(body, e)
        return m

    def struct(self, s, env):
        """flatten a structured argument to a list of numbers"""
        a = s.a
        if a[0] == "T":
            r, c = self.rng(a[1], env), self.rng(a[2], env)
            key = ("S", s) + tuple([env.get(v) for v in s.fv])
            m = self.memo.get(key)
            if m is None:
                m = self.mat(a[3], r, c, env)
                self.memo[key] = m
            return [float(r), float(c)] + list(m.flat)
        if a[0] == "A":
            return self.leaves(a[1:], env)
        if a[0] in ("fn", "ptr"):
            out = []
            for x in a[1:]:
                out += self.args(x, env) if isinstance(x, Node) else [u01(str(x))]
            return out
        return self.leaves((s,), env)

    def leaves(self, ls, env):
        d = {x.a[0]: x for x in ls if isinstance(x, Node) and x.k == "STRUCT"}
        out = []

        def size(rel, idx):
            x = d.get(rel)
            if x is None:
                return self.pf.extent(self, rel, idx)
            lam = x.a[2]
            e = dict(env)
            for v, i in zip(lam.a[0], list(idx) + [0, 0]):
                e[v] = i
            return self.rng(lam.a[1], e)

        def rec(rel, k, lam, done, idx):
            p = rel.find("[]", done)
            if p >= 0:
                n = size(rel[:p] + ".#n", idx)
                if k[0] == "arr_n":
                    n = k[1]
                out.append(float(n))
                for i in range(n):
                    rec(rel, k, lam, p + 2, idx + (i,))
                return
            r = c = 1
            if k[0] == "ten":
                r = k[1] if k[1] >= 0 else size(rel + ".#r", idx)
                c = k[2] if k[2] >= 0 else size(rel + ".#c", idx)
            e = dict(env)
            vs = lam.a[0]
            for v, i in zip(vs, idx):
                e[v] = i
            for i in range(r):
                e[vs[-2]] = i
                for j in range(c):
                    e[vs[-1]] = j
                    out.append(self.ev(lam.a[1], e))
        for x in ls:
            if isinstance(x, Node) and x.k == "STRUCT":
                if x.a[0].endswith((".#n", ".#r", ".#c")) and "[]" not in x.a[0]:
                    continue
                rec(x.a[0], x.a[1], x.a[2], 0, ())
        return out

    def args(self, x, env):
        if x.k == "STRUCT":
            return self.struct(x, env)
        if x.k == "LAM":
            raise Discard("lam")
        return [self.ev(x, env)]

    def argvec(self, n, env):
        key = ("AV", n.a[1]) + tuple([env.get(v) for v in self.afv(n)])
        r = self.extra.get(key)
        if r is None:
            r = []
            st = []
            for x in n.a[1]:
                if x.k == "STRUCT" and x.a[0] not in ("T", "A", "fn", "ptr"):
                    st.append(x)
                else:
                    r += self.args(x, env)
            if st:
                r += self.leaves(st, env)
            self.extra[key] = r
        return r

    def afv(self, n):
        f = self.fvs.get(("a", n))
        if f is None:
            s = set()
            for x in n.a[1]:
                s |= x.fv
            f = self.fvs[("a", n)] = tuple(s)
        return f

    def smooth(self, name, xs, idx, amp=1.0):
        """pseudo-random smooth function of xs"""
        key = (name, len(xs))
        w = self.funw.get(key)
        if w is None:
            rs = np.random.RandomState(h64("%s|%s|%d" % (self.seed, name, len(xs))) & 0x7fffffff)
            w = self.funw[key] = (rs.uniform(-1.3, 1.3, len(xs)), rs.uniform(-1.3, 1.3, len(xs)))
        s1 = s2 = 0.0
        for x, p, q in zip(xs, w[0], w[1]):
            if x != x:
                x = 7.77
            elif x > 1e6:
                x = 1e6 if x == INF else x
            elif x < -1e6:
                x = -1e6 if x == -INF else x
            if x > 8 or x < -8:
                x = math.copysign(8 + math.log(abs(x) / 8.0), x)
            s1 += p * x
            s2 += q * x
        a = 6.28318 * u01("%s|%s|%s" % (self.seed, name, idx))
        b = 6.28318 * u01("%s|%s|%s'" % (self.seed, name, idx))
        k1 = 0.5 + u01("%s|%s|%s''" % (self.seed, name, idx))
        return amp * (0.6 * math.sin(k1 * s1 + a) + 0.4 * math.cos(0.7 * s2 + b))

    def e_FUN(self, n, a, env):
        name = a[0]
        f = FUNS.get(name)
        if f is not None:
            return f(self, n, env)
        idx = tuple([self.ev(x, env) for x in a[2]])
        xs = self.argvec(n, env)
        r = self.pf.fun(self, name, xs, idx)
        if self.funs is not None and r.__class__ is float:
            self.funs.add((name, idx))
        if self.poke and r.__class__ is float:
            q = self.poke.get(("f", name, idx))
            if q is not None:
                r = q(self, r, xs)
        if self.jit and r.__class__ is float:
            r *= 1.0 + self.jit * (u01("jit%s%s" % (name, idx)) - 0.5)
        return r

    def e_BF(self, n, a, env):
        name = a[0]
        f = FUNS.get(name)
        if f is not None:
            return f(self, n, env)
        idx = tuple([self.ev(x, env) for x in a[2]])
        return 1 if self.pf.bfun(self, name, self.argvec(n, env), idx) else 0

    def e_STRUCT(self, n, a, env):
        return tuple(self.struct(n, env))


# ---------------------------------------------------------------- interpreted functions
def _f1(fn):
    def g(s, n, env):
        x = s.ev(n.a[1][0], env)
        try:
            return fn(float(x))
        except (ValueError, OverflowError):
            return NANV
    return g


def _log(x):
    return -INF if x == 0 else (NANV if x != x or x < 0 else (INF if x == INF else math.log(x)))


def _exp(x):
    return INF if x > 700 else math.exp(x)


def _idiv(s, n, env):
    x, y = (s.ev(v, env) for v in n.a[1])
    if y == 0:
        raise Discard("idiv")
    q = abs(int(x)) // abs(int(y))
    return q if (x >= 0) == (y > 0) else -q


def _imod(s, n, env):
    x, y = (s.ev(v, env) for v in n.a[1])
    if y == 0:
        raise Discard("imod")
    r = abs(int(x)) % abs(int(y))
    return r if x >= 0 else -r


def _trunc(s, n, env):
    x = s.ev(n.a[1][0], env)
    if x != x or abs(x) == INF:
        raise Discard("trunc")
    if x.__class__ is not int:
        d = abs(x - round(x))
        if d and d < 1e-9:
            s.fragile += 1
    return int(x)


def _matkey(s, n, env, lam, dims):
    key = ("M", n.a[0], lam) + tuple([env.get(v) for v in lam.fv]) + dims
    return key


def _inv(s, n, env):
    lam, nn = n.a[1]
    k = s.rng(nn, env)
    key = _matkey(s, n, env, lam, (k,))
    m = s.extra.get(key)
    if m is None:
        a = s.mat(lam, k, k, env)
        if not np.all(np.isfinite(a)):
            m = np.full((k, k), NANV)
        else:
            try:
                m = np.linalg.inv(a)
                c = np.abs(m).max() * np.abs(a).max() if k else 1
                if c > 1e7:
                    s.fragile += 1
            except np.linalg.LinAlgError:
                m = np.full((k, k), NANV)
        s.extra[key] = m
    i, j = (s.ev(x, env) for x in n.a[2])
    if not (0 <= i < k and 0 <= j < k):
        return s.sym("oob:inv", (i, j))
    return float(m[int(i), int(j)])


def _pinv(s, n, env):
    lam, r, c = n.a[1]
    r, c = s.rng(r, env), s.rng(c, env)
    key = _matkey(s, n, env, lam, (r, c))
    m = s.extra.get(key)
    if m is None:
        a = s.mat(lam, r, c, env)
        if not np.all(np.isfinite(a)):
            m = np.full((c, r), NANV)
        elif a.size == 0:
            m = np.zeros((c, r))
        else:
            u, sv, vt = np.linalg.svd(a)
            if sv.min() < 1e-7 * max(sv.max(), 1e-300):
                s.fragile += 1
            m = np.linalg.pinv(a)
        s.extra[key] = m
    i, j = (s.ev(x, env) for x in n.a[2])
    if not (0 <= i < c and 0 <= j < r):
        return s.sym("oob:pinv", (i, j))
    return float(m[int(i), int(j)])


def _tmat(s, st, env):
    r, c = s.rng(st.a[1], env), s.rng(st.a[2], env)
    key = ("S", st) + tuple([env.get(v) for v in st.fv])
    m = s.memo.get(key)
    if m is None:
        m = s.mat(st.a[3], r, c, env)
        s.memo[key] = m
    return m


def _chol(m):
    """lower factor, or None; second value: fragile"""
    k = m.shape[0]
    a = np.tril(m).copy()
    L = np.zeros((k, k))
    fr = 0
    for j in range(k):
        x = a[j, j] - float(L[j, :j] @ L[j, :j])
        if x != x:
            return None, fr
        if 0 < abs(x) < 1e-9 * max(1e-4, abs(a[j, j])):
            fr = 1
        if x <= 0:
            return None, fr
        L[j, j] = math.sqrt(x)
        for i in range(j + 1, k):
            L[i, j] = (a[i, j] - float(L[i, :j] @ L[j, :j])) / L[j, j]
    return L, fr


def _llt_fail(s, n, env):
    m = _tmat(s, n.a[1][0], env)
    L, fr = _chol(m)
    s.fragile += fr
    return 1 if L is None else 0


def _ldlt_fail(s, n, env):
    m = np.tril(_tmat(s, n.a[1][0], env))
    if not np.all(np.isfinite(m)):
        return 0
    if s.flat and m.size:
        # failure of the factorisation as a predicate of the matrix
        h = s.smooth("ldlt", [float(x) for x in m[np.tril_indices(m.shape[0])]], ())
        if abs(h) < 1e-8:
            s.fragile += 1
        return 1 if h > 0 else 0
    full = m + np.tril(m, -1).T
    # zero pivot with a non-zero remainder
    k = full.shape[0]
    a = full.copy()
    for j in range(k):
        d = np.abs(np.diag(a))[j:]
        p = j + int(np.argmax(d)) if d.size else j
        a[[j, p]] = a[[p, j]]
        a[:, [j, p]] = a[:, [p, j]]
        x = a[j, j]
        if abs(x) < 1e-12:
            if np.abs(a[j:, j:]).max() > 1e-9:
                return 1
            return 0
        for i in range(j + 1, k):
            l = a[i, j] / x
            a[i, j:] = a[i, j:] - l * a[j, j:]
    return 0


def _cholf(s, n, env):
    m = _tmat(s, n.a[1][0], env)
    L, fr = _chol(m)
    s.fragile += fr
    i, j = (s.ev(x, env) for x in n.a[2])
    if L is None:
        return NANV
    return float(L[int(i), int(j)]) if j <= i else 0


def _det(s, n, env):
    lam, r = n.a[1]
    k = s.rng(r, env)
    return float(np.linalg.det(s.mat(lam, k, k, env)))


def _prod(s, n, env):
    lam, r, c = n.a[1]
    return float(np.prod(s.mat(lam, s.rng(r, env), s.rng(c, env), env)))


def _vecof(s, n, env):
    lam, r = n.a[1]
    r = s.rng(r, env)
    i = s.ev(n.a[2][0], env)
    e = dict(env)
    e[lam.a[0][0]] = i % r
    e[lam.a[0][1]] = i // r
    return s.ev(lam.a[1], e)


def _pow(s, n, env):
    x, y = (s.ev(v, env) for v in n.a[1])
    try:
        r = float(x) ** float(y)
        return NANV if isinstance(r, complex) else r
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF


def _selfdiv(s, n, env):
    x = s.ev(n.a[1][0], env)
    return NANV if x == 0 or x != x or abs(x) == INF else 1


def _hazard(s, n, env):
    i = [s.ev(x, env) for x in n.a[2]]
    return s.sym("alias-hazard", tuple(i))


FUNS = {
    "sqrt": _f1(lambda x: math.sqrt(x) if x >= 0 else NANV), "log": _f1(_log), "exp": _f1(_exp), "sin": _f1(math.sin),
    "cos": _f1(math.cos), "tanh": _f1(math.tanh), "floor": _f1(math.floor), "ceil": _f1(math.ceil),
    "abs": lambda s, n, env: abs(s.ev(n.a[1][0], env)), "idiv": _idiv, "imod": _imod, "trunc": _trunc, "inv": _inv,
    "pinv": _pinv, "llt_fail": _llt_fail, "ldlt_fail": _ldlt_fail, "chol": _cholf, "det": _det, "prod": _prod, "vecof": _vecof,
    "pow": _pow, "selfdiv": _selfdiv, "inf0": lambda s, n, env: INF, "infconst": lambda s, n, env: INF,
    "nanconst": lambda s, n, env: NANV, "TIME": lambda s, n, env: 0.25, "alias-hazard": _hazard,
    "strlen": lambda s, n, env: 5,
}


def same(x, y, scale=1.0):
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if x != x and y != y:
        return True
    if x == y:
        return True
    if x != x or y != y:
        return False
    if abs(x) == INF or abs(y) == INF:
        return False
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-7 * scale


# ---------------------------------------------------------------- congruence up to bound names and argument order
class Alpha:
    """structural equality modulo bound-variable names and the order of commutative arguments"""

    def __init__(self):
        self.hm = {}
        self.eqm = {}
        self.trail = []

    def hash(self, n):
        r = self.hm.get(n)
        if r is None:
            r = self.hm[n] = self.hash0(n)
        return r

    def ht(self, t):
        if t.__class__ is Node:
            return self.hash(t)
        if t.__class__ is tuple:
            return hash(tuple([self.ht(x) for x in t]))
        return hash(t)

    def hash0(self, n):
        k, a = n.k, n.a
        if k == "V":
            return hash(a[0]) if a[0].startswith("#") else 77
        if k == "PHI":
            return hash(("PHI", self.ht(a[2])))
        if k == "ADD":
            return hash(("ADD", a[0], frozenset((self.hash(t), c) for t, c in a[1])))
        if k == "MUL":
            return hash(("MUL", frozenset((self.hash(t), e) for t, e in a[0])))
        if k in ("AND", "OR", "MAX"):
            return hash((k, frozenset(self.hash(t) for t in a[0])))
        if k == "EQ":
            return hash((k, frozenset(self.hash(t) for t in a)))
        if k == "IEQ" and a[0].k == "ADD":
            d = a[0].a
            return hash((k, frozenset(((d[0], frozenset((self.hash(t), c) for t, c in d[1])), (-d[0], frozenset((self.hash(t), -c) for t, c in d[1]))))))
        if k == "LAM":
            return hash((k, len(a[0]), self.hash(a[1])))
        if k == "MUG":
            return hash((k, len(a[0])))
        if k == "MU":
            g = a[0]
            return hash((k, self.hash(g.a[0][a[1]]), self.hash(g.a[1][a[1]]), self.hash(a[2]), self.ht(a[3])))
        if k in ("SUM", "EX", "FIRST", "RED"):
            return hash((k, self.ht(a[1:])))
        return hash((k, self.ht(a)))

    def eq(self, x, y, env=None, budget=None):
        self.budget = [200000]
        return self.e(x, y, env or {})

    def key(self, x, y, env):
        return (x, y, tuple(sorted(((v.id, env[v].id) if isinstance(env.get(v), Node) else (v.id, str(env.get(v))) for v in x.fv))))

    def e(self, x, y, env):
        """env: var of x -> var of y (and RV(lid) -> (lid2, posmap))"""
        if x is y and all(env.get(v, v) is v for v in x.fv):
            return True
        if x.k != y.k or self.hash(x) != self.hash(y):
            return False
        self.budget[0] -= 1
        if self.budget[0] < 0:
            return False
        key = self.key(x, y, env)
        r = self.eqm.get(key)
        if r is None:
            self.eqm[key] = True            # coinductive for recurrences
            n0 = len(self.trail)
            self.trail.append(key)
            r = self.e0(x, y, env)
            if not r:                       # what was concluded from the refuted hypothesis is void
                for q in self.trail[n0:]:
                    self.eqm.pop(q, None)
                del self.trail[n0:]
                if not any(v.a[0].startswith("R:") for v in x.fv):
                    self.eqm[key] = False   # (inside a recurrence it may depend on the correspondence tried)
        return r

    def et(self, s, t, env):
        if s.__class__ is Node:
            return t.__class__ is Node and self.e(s, t, env)
        if s.__class__ is tuple:
            return t.__class__ is tuple and len(s) == len(t) and all(self.et(p, q, env) for p, q in zip(s, t))
        return s == t

    def ms(self, xs, ys, env, kx=None):
        """multiset match; items (node, extra)"""
        if len(xs) != len(ys):
            return False
        left = list(ys)
        for t, c in xs:
            for i, (u, d) in enumerate(left):
                if c == d and self.hash(t) == self.hash(u) and self.e(t, u, env):
                    del left[i]
                    break
            else:
                return False
        return True

    def e0(self, x, y, env):
        k, a, b = x.k, x.a, y.a
        if k == "V":
            return env.get(x, x) is y
        if k == "K":
            return a == b
        if k == "ADD":
            return a[0] == b[0] and self.ms(a[1], b[1], env)
        if k == "MUL":
            return self.ms(a[0], b[0], env)
        if k in ("AND", "OR", "MAX"):
            return self.ms([(t, 0) for t in a[0]], [(t, 0) for t in b[0]], env)
        if k == "EQ":
            return (self.e(a[0], b[0], env) and self.e(a[1], b[1], env)) or (self.e(a[0], b[1], env) and self.e(a[1], b[0], env))
        if k == "IEQ":
            if a[0].k == "ADD" and b[0].k == "ADD":
                p, q = a[0].a, b[0].a
                return (p[0] == q[0] and self.ms(p[1], q[1], env)) or (p[0] == -q[0] and self.ms(p[1], [(t, -c) for t, c in q[1]], env))
            return self.e(a[0], b[0], env)
        if k == "LAM":
            if len(a[0]) != len(b[0]):
                return False
            e2 = dict(env)
            e2.update(zip(a[0], b[0]))
            return self.e(a[1], b[1], e2)
        if k in ("SUM", "EX", "FIRST", "RED"):
            if (a[1] is None) != (b[1] is None):
                return False
            if a[1] is not None and not self.e(a[1], b[1], env):
                return False
            e2 = dict(env)
            e2[a[0]] = b[0]
            return self.e(a[2], b[2], e2) and (k != "RED" or self.e(a[3], b[3], e2))
        if k == "PHI":
            m = env.get(RV(a[0]))
            if m is None:
                return a[0] == b[0] and a[1] == b[1] and self.et(a[2], b[2], env)
            if m[0] != b[0]:
                return False
            return self.mpair(m, a[1], b[1]) and self.et(a[2], b[2], env)
        if k == "MU":
            g, h = a[0], b[0]
            if not (self.e(a[2], b[2], env) and self.et(a[3], b[3], env)):
                return False
            m = PM(h.a[3], g, h, env)
            ok = self.mpair(m, g.a[2][a[1]], h.a[2][b[1]])
            return ok
        return self.et(a, b, env)

    def mpair(self, m, p, q):
        """cell p of group g corresponds to cell q of group h"""
        if m.mp.get(p) is not None:
            return m.mp[p] == q
        if q in m.used:
            return False
        m.mp[p] = q
        m.used.add(q)
        i, j = m.g.a[2].index(p), m.h.a[2].index(q)
        ok = self.e(m.g.a[0][i], m.h.a[0][j], m.env)
        if ok:
            e2 = dict(m.env)
            e2[m.g.a[4]] = m.h.a[4]
            e2[RV(m.g.a[3])] = m
            ok = self.e(m.g.a[1][i], m.h.a[1][j], e2)
        if not ok:
            del m.mp[p]
            m.used.discard(q)
        return ok


class PM:
    """correspondence between the cells of two recurrence groups"""
    _c = [0]

    def __init__(self, lid, g, h, env):
        self.lid, self.g, self.h, self.env = lid, g, h, env
        self.mp, self.used = {}, set()

    def __getitem__(self, i):
        return self.lid

    def __str__(self):
        return "PM%s:%s" % (self.g.id, self.h.id)
