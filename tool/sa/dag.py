"""Hash-consed value graph: the abstract value domain of the analysis.

Every value the analysed code computes is a node of one global, interned graph; equal nodes are the same object, so
"two pieces of code compute the same value" is pointer equality.  Nodes are kept in a light normal form (sums of scaled
terms, products of powers, flattened boolean connectives, alpha-canonical binders).  Loops appear as recurrences (MU),
reductions (SUM/EX/RED) and trip counts (FIRST).  TRUE/FALSE are the constants 1/0."""
from fractions import Fraction
import sys
import time
sys.setrecursionlimit(200000)

LOOSE = [False]


class Node:
    __slots__ = ("k", "a", "id", "fv", "h", "mark", "b", "_lits")

    def __repr__(self):
        return show(self)


class Timeout(Exception):
    """the analysis budget of a unit is used up: the unit is undecided"""


DEADLINE = [None]
_tab = {}
_n = [0]
EMPTY = frozenset()
MARK_UNK, MARK_OPEN = 1, 2
BOOLK = {"AND", "OR", "NOT", "LT", "LE", "EQ", "IGT", "IEQ", "BF", "B", "EX", "NAN"}


def _mk(k, a, fv=None, h=None, mark=0, bound=None, b=False):
    key = (k, a)
    n = _tab.get(key)
    if n is not None:
        return n
    f2, h2, m2 = _scan(a)
    if not _n[0] & 0x3ff and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout()
    n = Node()
    n.k, n.a = k, a
    n.id = _n[0]
    _n[0] += 1
    if fv is not None:
        f2 = f2 | fv
    if bound:
        f2 = f2 - bound
    n.fv = f2
    n.h = h if h is not None else h2
    n.mark = mark | m2
    n.b = b or k in BOOLK
    n._lits = None
    _tab[key] = n
    return n


def _scan(a):
    fv, h, m = EMPTY, 0, 0
    for x in a:
        if x.__class__ is Node:
            f2 = x.fv
            if f2 and f2 is not fv:
                fv = (fv | f2) if fv else f2
            if x.h > h:
                h = x.h
            m |= x.mark
        elif x.__class__ is tuple:
            f2, h2, m2 = _scan(x)
            if f2:
                fv = (fv | f2) if fv else f2
            if h2 > h:
                h = h2
            m |= m2
    return fv, h, m


def VAR(name):
    n = _tab.get(("V", (name,)))
    if n is None:
        n = _mk("V", (name,))
        n.fv = frozenset((n,))
    return n


_gs = [0]


def gensym(tag="g"):
    _gs[0] += 1
    return VAR("%s!%d" % (tag, _gs[0]))


def var(v):
    return v


PI, PJ = VAR("#i"), VAR("#j")


def PL(k):
    return VAR("#L%d" % k)


def BV(h):
    return VAR("B%d" % h)


def RV(lid):
    return VAR("R:%s" % (lid,))


def const(c):
    if not isinstance(c, Fraction):
        c = Fraction(c)
    return _mk("K", (c,))


ZERO, ONE = const(0), const(1)
FALSE, TRUE = ZERO, ONE
ZERO.b = ONE.b = True


def is_const(n):
    return n.a[0] if n.k == "K" else None


# ---------------------------------------------------------------- arithmetic
def _terms(x):
    if x.k == "K":
        return x.a[0], {}
    if x.k == "ADD":
        return x.a[0], dict(x.a[1])
    return Fraction(0), {x: Fraction(1)}


def _mkadd(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda z: z[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("ADD", (c, items))


def add(x, y):
    if x is ZERO:
        return y
    if y is ZERO:
        return x
    c1, d1 = _terms(x)
    c2, d2 = _terms(y)
    if len(d1) < len(d2):
        d1, d2 = d2, d1
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + k
    return _mkadd(c1 + c2, d1)


def scale(x, c):
    c = Fraction(c)
    if c == 1:
        return x
    if c == 0:
        return ZERO
    k, d = _terms(x)
    return _mkadd(k * c, {t: v * c for t, v in d.items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    if x is y:
        return ZERO
    return add(x, neg(y))


_SH = []


def _sh(n):
    """hash of the structure, independent of bound names and creation order"""
    if not _SH:
        from . import ri
        _SH.append(ri.Alpha().hash)
    return _SH[0](n)


def _factor(x):
    """-> (coef, {factor: exp})"""
    if x.k == "K":
        return x.a[0], {}
    if x.k == "ADD":
        c, items = x.a
        if c == 0 and len(items) == 1:
            k, f = _factor(items[0][0])
            return k * items[0][1], f
        if c != 0:
            lead = c
        else:
            lead = min(items, key=lambda z: (_sh(z[0]), -z[1]))[1]
        if lead != 1:
            return lead, {scale(x, 1 / lead): 1}
        return Fraction(1), {x: 1}
    if x.k == "MUL":
        return Fraction(1), dict(x.a[0])
    return Fraction(1), {x: 1}


def _mkmul(c, f):
    if c == 0:
        return ZERO
    it = tuple(sorted(((t, e) for t, e in f.items() if e != 0), key=lambda z: z[0].id))
    if not it:
        return const(c)
    if len(it) == 1 and it[0][1] == 1:
        return scale(it[0][0], c)
    m = _mk("MUL", (it,))
    return m if c == 1 else _mkadd(Fraction(0), {m: c})


def mul(x, y):
    if x is ONE:
        return y
    if y is ONE:
        return x
    if x is ZERO or y is ZERO:
        return ZERO
    if x.k == "K":
        return scale(y, x.a[0])
    if y.k == "K":
        return scale(x, y.a[0])
    c1, f1 = _factor(x)
    c2, f2 = _factor(y)
    for t, e in f2.items():
        f1[t] = f1.get(t, 0) + e
    return _mkmul(c1 * c2, f1)


def recip(x):
    c = is_const(x)
    if c is not None:
        if c == 0:
            return FUN("inf0", ())
        return const(1 / c)
    k, f = _factor(x)
    return _mkmul(1 / k, {t: -e for t, e in f.items()})


def div(x, y):
    # x/x is not folded: NaN/zero behaviour is kept
    if x is y and is_const(x) is None:
        return FUN("selfdiv", (x,))
    return mul(x, recip(y))


def sqrt(x):
    c = is_const(x)
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fraction(a, b))
    return FUN("sqrt", (x,))


def power(x, n):
    c = is_const(x)
    if c is not None and (c != 0 or n >= 0):
        return const(c ** n)
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, x)
    return recip(r) if n < 0 else r


def MAXN(xs):
    s, c = [], None
    for x in xs:
        if x.k == "MAX":
            ys = x.a[0]
        else:
            ys = (x,)
        for y in ys:
            if y.k == "K":
                c = y.a[0] if c is None else max(c, y.a[0])
            elif y not in s:
                s.append(y)
    if c is not None:
        s.append(const(c))
    if len(s) == 1:
        return s[0]
    return _mk("MAX", (tuple(sorted(s, key=lambda z: z.id)),))


def MINN(xs):
    return neg(MAXN([neg(x) for x in xs]))


# ---------------------------------------------------------------- booleans
def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.k == "NOT":
        return x.a[0]
    if x.k == "IGT":
        return igt(sub(ONE, x.a[0]))
    if x.k == "ITE":
        return ite(x.a[0], bnot(x.a[1]), bnot(x.a[2]))
    return _mk("NOT", (x,))


def conj(x):
    return x.a[0] if x.k == "AND" else (x,)


def band(x, y):
    if x is TRUE or x is y:
        return y
    if y is TRUE:
        return x
    if x is FALSE or y is FALSE:
        return FALSE
    s = dict.fromkeys(conj(x))
    for l in conj(y):
        if l in s:
            continue
        if bnot(l) in s:
            return FALSE
        s[l] = None
    # absorb / unit-resolve disjunctions
    out = []
    ch = False
    for l in s:
        if l.k == "OR":
            keep = []
            drop = False
            for m in l.a[0]:
                if all(q in s for q in conj(m)):
                    drop = True
                    break
                if any(bnot(q) in s for q in conj(m)):
                    continue
                keep.append(m)
            if drop:
                ch = True
                continue
            if len(keep) != len(l.a[0]):
                ch = True
                r = FALSE
                for m in keep:
                    r = bor(r, m)
                if r is FALSE:
                    return FALSE
                out.append(r)
                continue
        out.append(l)
    if ch:
        r = TRUE
        for l in out:
            r = band(r, l)
        return r
    if len(s) == 1:
        return out[0]
    return _mk("AND", (tuple(sorted(s, key=lambda z: z.id)),))


def disj(x):
    return x.a[0] if x.k == "OR" else (x,)


def bor(x, y):
    if x is FALSE or x is y:
        return y
    if y is FALSE:
        return x
    if x is TRUE or y is TRUE:
        return TRUE
    s = list(dict.fromkeys(disj(x) + disj(y)))
    changed = True
    while changed:
        changed = False
        for i in range(len(s)):
            for j in range(len(s)):
                if i == j:
                    continue
                ci, cj = frozenset(conj(s[i])), frozenset(conj(s[j]))
                if ci <= cj:
                    del s[j]
                    changed = True
                    break
                if len(ci) <= 60 and len(cj) <= 60:
                    # (A & c) | (A & !c) = A ; (A) | (B & !A..) single-literal resolution
                    d1, d2 = ci - cj, cj - ci
                    if len(d1) == 1:
                        l = next(iter(d1))
                        nl = bnot(l)
                        if nl in d2:
                            if len(d2) == 1:
                                r = TRUE
                                for q in ci & cj:
                                    r = band(r, q)
                                s = [z for t, z in enumerate(s) if t not in (i, j)] + [r]
                                changed = True
                                break
                            # (R & l) | (R & !l & S) = R & (l | S) -> drop !l from the second
                            r = TRUE
                            for q in cj:
                                if q is not nl:
                                    r = band(r, q)
                            s[j] = r
                            changed = True
                            break
            if changed:
                break
        if TRUE in s:
            return TRUE
        if len(s) > 40:
            break
    s = list(dict.fromkeys(s))
    if len(s) == 1:
        return s[0]
    ss = set(s)
    for l in s:
        if bnot(l) in ss:
            return TRUE
    return _mk("OR", (tuple(sorted(s, key=lambda z: z.id)),))


def ite(c, x, y):
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if c.k == "NOT":
        return ite(c.a[0], y, x)
    if x.k == "ITE" and x.a[0] is c:
        x = x.a[1]
    if y.k == "ITE" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if x.b and y.b:
        if x is TRUE and y is FALSE:
            return c
        if x is FALSE and y is TRUE:
            return bnot(c)
        if x is TRUE:
            return bor(c, y)
        if y is FALSE:
            return band(c, x)
        if x is FALSE:
            return band(bnot(c), y)
        if y is TRUE:
            return bor(bnot(c), x)
    # same value behind a further condition
    if y.k == "ITE" and y.a[1] is x:
        return ite(bor(c, y.a[0]), x, y.a[2])
    if x.k == "ITE" and x.a[2] is y:
        return ite(band(c, x.a[0]), x.a[1], y)
    return _mk("ITE", (c, x, y), b=x.b and y.b)


def truth(x):
    if x.k == "K":
        return TRUE if x.a[0] != 0 else FALSE
    if x.b:
        return x
    if x.k == "ITE":
        return ite(x.a[0], truth(x.a[1]), truth(x.a[2]))
    return _mk("B", (x,))


def _prim(x):
    """integer linear expression scaled by a positive constant to a canonical one"""
    c, d = _terms(x)
    if not d:
        return x
    k = abs(min(d.items(), key=lambda z: z[0].id)[1])
    return scale(x, 1 / k) if k != 1 else x


def igt(x):
    c = is_const(x)
    if c is not None:
        return TRUE if c > 0 else FALSE
    if x.k == "ITE" and x.a[1].k == "K" and x.a[2].k == "K":
        return ite(x.a[0], igt(x.a[1]), igt(x.a[2]))
    return _mk("IGT", (x,))


def gt0(x, isint):
    if isint:
        return igt(x)
    return lt(ZERO, x)


def ge0(x, isint):
    if isint:
        return igt(add(x, ONE))
    return le(ZERO, x)


def eq0(x, isint):
    return eq(x, ZERO, isint)


def lt(x, y, isint=False):
    if isint:
        return igt(sub(y, x))
    a, b = is_const(x), is_const(y)
    if a is not None and b is not None:
        return TRUE if a < b else FALSE
    if x is y:
        return FALSE
    return _mk("LT", (x, y))


def le(x, y, isint=False):
    if isint:
        return igt(add(sub(y, x), ONE))
    a, b = is_const(x), is_const(y)
    if a is not None and b is not None:
        return TRUE if a <= b else FALSE
    return _mk("LE", (x, y))


def eq(x, y, isint=False):
    d = sub(x, y)
    c = is_const(d)
    if c is not None and (isint or c != 0 or (x.k == "K" and y.k == "K")):
        return TRUE if c == 0 else FALSE
    if isint:
        if d.k == "ITE" and d.a[1].k == "K" and d.a[2].k == "K":
            return ite(d.a[0], eq(d.a[1], ZERO, True), eq(d.a[2], ZERO, True))
        if d.k == "ADD":
            lead = d.a[1][0][1]
            if lead < 0:
                d = neg(d)
        return _mk("IEQ", (d,))
    if x.id > y.id:
        x, y = y, x
    return _mk("EQ", (x, y))


def nan_atom(k, x):
    if x.k == "K":
        return FALSE
    return _mk("NAN", (k, x))


# ---------------------------------------------------------------- assumption
def lits(pc):
    l = pc._lits
    if l is None:
        l = set(conj(pc))
        for q in list(l):
            if q.k == "NOT" and q.a[0].k == "OR":
                for d in q.a[0].a[0]:
                    l.add(bnot(d))
        pc._lits = l
    return l


def _linkey(x):
    c, d = _terms(x)
    if not d:
        return None
    items = tuple(sorted(d.items(), key=lambda z: z[0].id))
    s = items[0][1]
    return tuple((t, v / s) for t, v in items), s, c


def assume(n, pc, depth=6):
    """simplify boolean n given that pc holds"""
    if pc is TRUE or pc is FALSE or n is TRUE or n is FALSE or depth == 0:
        return n
    l = lits(pc)
    if n in l:
        return TRUE
    if bnot(n) in l:
        return FALSE
    if n.k == "AND":
        r = TRUE
        for q in n.a[0]:
            r = band(r, assume(q, pc, depth - 1))
        return r
    if n.k == "OR":
        r = FALSE
        for q in n.a[0]:
            r = bor(r, assume(q, pc, depth - 1))
        return r
    if n.k == "NOT":
        return bnot(assume(n.a[0], pc, depth - 1))
    if n.k in ("IGT", "IEQ"):
        k = _linkey(n.a[0])
        if k is None:
            return n
        key, s, c = k
        lo, hi, ne = None, None, []
        for q in l:
            if q.k == "IEQ" or q.k == "IGT" or (q.k == "NOT" and q.a[0].k == "IEQ"):
                y = q.a[0] if q.k != "NOT" else q.a[0].a[0]
                k2 = _linkey(y)
                if k2 is None or k2[0] != key:
                    continue
                s2, c2 = k2[1], k2[2]
                # y = s2*L + c2
                v = -c2 / s2
                if q.k == "IEQ":
                    lo = v if lo is None else max(lo, v)
                    hi = v if hi is None else min(hi, v)
                elif q.k == "NOT":
                    ne.append(v)
                else:
                    if s2 > 0:      # L >= v + 1/s2
                        w = v + 1 / s2
                        lo = w if lo is None else max(lo, w)
                    else:           # L <= v - 1/|s2|
                        w = v + 1 / s2
                        hi = w if hi is None else min(hi, w)
        if lo is None and hi is None and not ne:
            return n
        t = -c / s
        if n.k == "IEQ":
            if lo is not None and lo == hi:
                return TRUE if t == lo else FALSE
            if (lo is not None and t < lo) or (hi is not None and t > hi) or t in ne:
                return FALSE
        else:
            # s*L + c > 0
            if s > 0:
                if lo is not None and s * lo + c > 0:
                    return TRUE
                if hi is not None and s * hi + c <= 0:
                    return FALSE
            else:
                if hi is not None and s * hi + c > 0:
                    return TRUE
                if lo is not None and s * lo + c <= 0:
                    return FALSE
    return n


# ---------------------------------------------------------------- symbols and binders
def SYM(path, idxs=()):
    return _mk("SYM", (path, tuple(idxs)))


def FUN(name, args, idxs=()):
    return _mk("FUN", (name, tuple(args), tuple(idxs)), mark=MARK_UNK if name.startswith("unk:") else 0)


def BFUN(name, args, idxs=()):
    return _mk("BF", (name, tuple(args), tuple(idxs)), mark=MARK_UNK if name.startswith("unk:") else 0)


def PHI(lid, path, idxs=()):
    return _mk("PHI", (lid, path, tuple(idxs)), fv=frozenset((RV(lid),)), mark=0)


def STRUCT(*a):
    return _mk("STRUCT", tuple(a))


def LAM(vs, body):
    """lambda over vs; body a node"""
    vs = tuple(vs)
    return _mk("LAM", (vs, body), bound=frozenset(vs))


def app(lam, args):
    return subst(lam.a[1], dict(zip(lam.a[0], args)))


def _bind(kind, v, n, body, extra=()):
    """binder node; the bound name is a globally unique generated name and is never renamed (substitution checks capture)"""
    key = (kind, (v, n, body) + extra)
    nd = _tab.get(key)
    if nd is None:
        nd = _mk(kind, key[1])
        f = body.fv
        for x in extra:
            f = f | x.fv
        f = f - frozenset((v,))
        if n is not None:
            f = f | n.fv
        nd.fv = f
    return nd


def sum_over(v, n, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if n is ONE:
        return subst(body, {v: ZERO})
    if v not in body.fv:
        return mul(n, body)
    c, f = _factor(body)
    out = {t: e for t, e in f.items() if v not in t.fv}
    if out or c != 1:
        inn = {t: e for t, e in f.items() if v in t.fv}
        return mul(_mkmul(c, out), sum_over(v, n, _mkmul(Fraction(1), inn)))
    if body.k == "ADD":
        k, items = body.a
        dep = [t for t, _ in items if v in t.fv]
        r = ZERO
        for t, kk in items:
            r = add(r, scale(sum_over(v, n, t), kk))
        return add(r, scale(n, k)) if k else r
    return _bind("SUM", v, n, body)


def exists(v, n, c):
    if c is FALSE or n is ZERO:
        return FALSE
    if n is ONE:
        return subst(c, {v: ZERO})
    if v not in c.fv:
        return band(c, igt(n)) if n is not None else c
    return _bind("EX", v, n, c)


def first(v, n, c):
    """smallest v in [0,n) with c; n if there is none (n None: unbounded)"""
    if c is TRUE:
        return ZERO
    if c is FALSE and n is not None:
        return n
    return _bind("FIRST", v, n, c)


NEGINF = _mk("NEGINF", ())


def red_max(v, n, filt, e):
    if n is ONE:
        return subst(ite(filt, e, NEGINF), {v: ZERO})
    return _bind("RED", v, n, e, (filt,))


# ---------------------------------------------------------------- recurrences
def close_mug(lid, names, inits, nexts, nv):
    """simultaneous recurrence: value 0 = inits, value n+1 = nexts[PHI(lid, name) := value n, nv := n]; inits/nexts are LAMs"""
    key = ("MUG", (tuple(inits), tuple(nexts), tuple(names), lid, nv))
    g = _tab.get(key)
    if g is None:
        g = _mk("MUG", key[1])
        f = EMPTY
        for t in nexts:
            f = f | t.fv
        f = f - frozenset((nv, RV(lid)))
        for t in inits:
            f = f | t.fv
        g.fv = f
    return g


def MU(g, pos, n, idxs):
    if n is ZERO:
        return app(g.a[0][pos], idxs)
    return _mk("MU", (g, pos, n, tuple(idxs)))


# ---------------------------------------------------------------- substitution
class Mp:
    __slots__ = ("d", "keys", "vf")

    def __init__(self, d, vf=None):
        self.d = d
        self.keys = frozenset(d)
        if vf is None:
            vf = EMPTY
            for v in d.values():
                if v.__class__ is Node:
                    vf = vf | v.fv
                else:
                    vf = vf | getattr(v, "fv", EMPTY)
        self.vf = vf

    def without(self, vs):
        d = {k: v for k, v in self.d.items() if k not in vs}
        return Mp(d)

    def plus(self, e):
        d = dict(self.d)
        d.update(e)
        return Mp(d)


def subst(n, mp, phi=None):
    """mp: VAR -> node, or RV(lid) -> function(path, idxs)"""
    if not mp or not n.fv:
        return n
    if n.fv.isdisjoint(mp):
        return n
    m = Mp(mp)
    return _sub(n, m, m.keys, {})


def _sub(n, mp, keys, memo):
    if keys.isdisjoint(n.fv):
        return n
    r = memo.get(n)
    if r is None:
        r = _sub0(n, mp, keys, memo)
        memo[n] = r
    return r


def _subt(t, mp, keys, memo):
    return tuple(_sub(x, mp, keys, memo) if x.__class__ is Node else (_subt(x, mp, keys, memo) if x.__class__ is tuple else x) for x in t)


def _sub0(n, mp, keys, memo):
    k = n.k
    a = n.a
    if k == "V":
        return mp.d[n]
    if k == "ADD":
        c, items = a
        r = const(c)
        d0 = {}
        for t, q in items:
            if keys.isdisjoint(t.fv):
                d0[t] = q
            else:
                r = add(r, scale(_sub(t, mp, keys, memo), q))
        return add(r, _mkadd(Fraction(0), d0)) if d0 else r
    if k == "MUL":
        r = ONE
        for t, e in a[0]:
            s = _sub(t, mp, keys, memo)
            r = mul(r, s if e == 1 else power(s, e))
        return r
    if k == "ITE":
        c = _sub(a[0], mp, keys, memo)
        if c is TRUE:
            return _sub(a[1], mp, keys, memo)
        if c is FALSE:
            return _sub(a[2], mp, keys, memo)
        return ite(c, _sub(a[1], mp, keys, memo), _sub(a[2], mp, keys, memo))
    if k == "SYM":
        return SYM(a[0], _subt(a[1], mp, keys, memo))
    if k == "FUN":
        r = _subt(a[1], mp, keys, memo)
        if a[0] == "sqrt":
            return sqrt(r[0])
        return FUN(a[0], r, _subt(a[2], mp, keys, memo))
    if k == "BF":
        return BFUN(a[0], _subt(a[1], mp, keys, memo), _subt(a[2], mp, keys, memo))
    if k == "AND":
        r = TRUE
        for x in a[0]:
            r = band(r, _sub(x, mp, keys, memo))
            if r is FALSE:
                return r
        return r
    if k == "OR":
        r = FALSE
        for x in a[0]:
            r = bor(r, _sub(x, mp, keys, memo))
            if r is TRUE:
                return r
        return r
    if k == "NOT":
        return bnot(_sub(a[0], mp, keys, memo))
    if k == "LT":
        return lt(_sub(a[0], mp, keys, memo), _sub(a[1], mp, keys, memo))
    if k == "LE":
        return le(_sub(a[0], mp, keys, memo), _sub(a[1], mp, keys, memo))
    if k == "EQ":
        return eq(_sub(a[0], mp, keys, memo), _sub(a[1], mp, keys, memo))
    if k == "IGT":
        return igt(_sub(a[0], mp, keys, memo))
    if k == "IEQ":
        return eq(_sub(a[0], mp, keys, memo), ZERO, True)
    if k == "B":
        return truth(_sub(a[0], mp, keys, memo))
    if k == "NAN":
        return nan_atom(a[0], _sub(a[1], mp, keys, memo))
    if k == "MAX":
        return MAXN([_sub(x, mp, keys, memo) for x in a[0]])
    if k == "PHI":
        idxs = _subt(a[2], mp, keys, memo)
        f = mp.d.get(RV(a[0]))
        if f is not None:
            return f(a[1], idxs)
        return PHI(a[0], a[1], idxs)
    if k == "LAM":
        bvs, body = a
        m = mp
        if not keys.isdisjoint(bvs):
            m = mp.without(bvs)
            if m.keys.isdisjoint(n.fv):
                return n
        if not m.vf.isdisjoint(bvs):
            nb = tuple(gensym("l") for _ in bvs)
            m = m.plus(dict(zip(bvs, nb)))
            bvs = nb
        return LAM(bvs, _sub(body, m, m.keys, memo if m is mp else {}))
    if k in ("SUM", "EX", "FIRST", "RED"):
        bv, rng, body = a[:3]
        r2 = _sub(rng, mp, keys, memo) if rng is not None else None
        m, m2 = mp, memo
        if bv in keys:
            m = mp.without((bv,))
            m2 = {}
        if bv in m.vf:
            g = gensym("o")
            m = m.plus({bv: g})
            m2 = {}
            bv = g
        b2 = _sub(body, m, m.keys, m2)
        if k == "SUM":
            return sum_over(bv, r2, b2)
        if k == "EX":
            return exists(bv, r2, b2)
        if k == "FIRST":
            return first(bv, r2, b2)
        return red_max(bv, r2, _sub(a[3], m, m.keys, m2), b2)
    if k == "MU":
        return MU(_sub(a[0], mp, keys, memo), a[1], _sub(a[2], mp, keys, memo), _subt(a[3], mp, keys, memo))
    if k == "MUG":
        inits, nexts, names, lid, nv = a
        i2 = tuple(_sub(t, mp, keys, memo) for t in inits)
        m, m2 = mp, memo
        bs = (nv, RV(lid))
        if not keys.isdisjoint(bs):
            m = mp.without(bs)
            m2 = {}
        if not m.vf.isdisjoint(bs):
            _gs[0] += 1
            l2 = "o%d" % _gs[0]
            nv2 = gensym("n")
            m = m.plus({nv: nv2, RV(lid): (lambda p, idxs: PHI(l2, p, idxs))})
            m2 = {}
            lid, nv = l2, nv2
        n2 = tuple(_sub(t, m, m.keys, m2) for t in nexts)
        return close_mug(lid, names, i2, n2, nv)
    if k == "STRUCT":
        return _mk("STRUCT", _subt(a, mp, keys, memo))
    raise ValueError(k)


# ---------------------------------------------------------------- queries
def walk(n, seen=None):
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
        elif x.__class__ is Node:
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
    return seen


def subnodes(n, seen):
    return walk(n, seen)


def children(n):
    st, out = list(n.a), []
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
        elif x.__class__ is Node:
            out.append(x)
    return out


def syms(n):
    return {x.a[0] for x in walk(n) if x.k == "SYM"}


def funs(n):
    return {x.a[0] for x in walk(n) if x.k in ("FUN", "BF")}


def unknowns(n):
    return {x.a[0] for x in walk(n) if x.k in ("FUN", "BF") and x.a[0].startswith("unk:")}


def size(n):
    return len(walk(n))


def show(n, depth=8):
    if n.__class__ is not Node:
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, depth) for x in n) + ")"
        return str(n)
    if depth <= 0:
        return "…"
    k, a, d = n.k, n.a, depth - 1
    if k == "K":
        c = a[0]
        return str(c) if c.denominator < 10000 else repr(float(c))
    if k == "V":
        return a[0]
    if k == "ADD":
        p = [show(const(a[0]))] if a[0] else []
        for t, c in a[1][:10]:
            p.append(show(t, d) if c == 1 else "-" + show(t, d) if c == -1 else "%s*%s" % (show(const(c)), show(t, d)))
        if len(a[1]) > 10:
            p.append("…")
        return "(" + " + ".join(p).replace("+ -", "- ") + ")"
    if k == "MUL":
        return "*".join(show(t, d) + ("" if e == 1 else "^%d" % e) for t, e in a[0])
    if k == "SYM":
        return a[0] + ("(%s)" % ",".join(show(x, d) for x in a[1]) if a[1] else "")
    if k in ("FUN", "BF"):
        return a[0] + "(" + ", ".join(show(x, d) for x in a[1]) + ")" + ("[%s]" % ",".join(show(x, d) for x in a[2]) if a[2] else "")
    if k == "ITE":
        return "[%s ? %s : %s]" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if k in ("AND", "OR"):
        return "(" + (" & " if k == "AND" else " | ").join(show(x, d) for x in a[0][:8]) + (" …" if len(a[0]) > 8 else "") + ")"
    if k == "NOT":
        return "!" + show(a[0], d)
    if k in ("LT", "LE", "EQ"):
        return "%s %s %s" % (show(a[0], d), {"LT": "<", "LE": "<=", "EQ": "=="}[k], show(a[1], d))
    if k == "IGT":
        return "%s > 0" % show(a[0], d)
    if k == "IEQ":
        return "%s == 0" % show(a[0], d)
    if k == "PHI":
        return "φ%s.%s(%s)" % (a[0], a[1], ",".join(show(x, d) for x in a[2]))
    if k in ("SUM", "EX", "FIRST", "RED"):
        return "%s{%s<%s}(%s)" % (k, a[0].a[0], show(a[1], d) if a[1] is not None else "∞", show(a[2], d))
    if k == "MU":
        return "rec%s#%d[%s](%s)" % (show(a[0], d), a[1], show(a[2], d), ",".join(show(x, d) for x in a[3]))
    if k == "MUG":
        return "{%s; %s}" % (show(a[0], d), show(a[1], d))
    if k == "LAM":
        return "λ.%s" % show(a[1], d)
    if k == "MAX":
        return "max(%s)" % ",".join(show(x, d) for x in a[0])
    return k + "(" + ", ".join(show(x, d) for x in a) + ")"
