"""The three modules: their units (functions compared with the reference), class invariants (sizes) and value ranges."""
import re
from . import engine as E
from .core import Unit
from .ri import INF, NANV, Discard


ENTRY = ("ddp.solve", "fmpc.solve", "cg.setup", "gm.solveA", "gm.solveF", "box.solve5", "box.solve4")      # operations that establish the class invariants


class Profile:
    """ranges and sizes of free symbols: the class invariants a unit may assume on entry"""
    opaque_amp = 1.0
    asym = None
    again = None
    rules = ()

    def __init__(self, mod, unit, inst):
        self.mod, self.unit, self.inst = mod, unit, inst
        self.crules = []
        for r, f in tuple(unit.rules) + tuple(self.rules):
            self.crules.append((re.compile(r), f))
        self.forced = {}

    def start(self, v):
        v.N = 1 + int(v.rnd("N") * 3)
        v.dims = {}

    def stepdim(self, v, what, t, lo, hi):
        """dimension at time t"""
        if t != t or abs(t) > 1e9:
            raise Discard("time")
        key = (what, round(t * 1e6))
        d = v.dims.get(key)
        if d is None:
            d = v.dims[key] = lo + int(v.rnd("dim", what, key[1]) * (hi - lo + 1))
        return d

    def drange(self, v, what):
        """dynamic dimensions: mostly 1..3, sometimes empty at some steps, rarely at all steps"""
        r = v.rnd(what)
        return (0, 0) if r < 0.1 else (0, 3) if r < 0.35 else (1, 3)

    def sym(self, v, path, idx):
        if path in self.forced:
            return self.forced[path]
        if self.unit.id in ENTRY and path.startswith("this.") and path.endswith((".#n", ".#r", ".#c")) and "config_" not in path and "problem_" not in path:
            return int(5 * v.rnd("left", path, idx))        # whatever an earlier operation left behind
        for rx, f in self.crules:
            m = rx.search(path)
            if m:
                r = f(self, v, m, idx)
                if r is not None:
                    return r
        ty = E.SYMTY.get(path) or E.SYMTY.get("fun:" + path) or "d"
        if path.endswith((".#n", ".#r", ".#c")):
            return 2
        if ty == "b":
            return 1 if v.rnd(path, idx) < 0.5 else 0
        if ty == "i":
            return int(v.rnd(path, idx) * 4)
        if v.mode == "nan" and v.rnd("nan", path, idx) < 0.012:
            return NANV if v.rnd("nk", path, idx) < 0.7 else INF
        return v.real(path, idx)

    def ruled(self, path):
        """the range rule of a symbol or model result, None when it is unrestricted"""
        for rx, f in self.crules:
            if rx.search(path):
                return None if getattr(f, "loose", False) else f
        return None

    def maynan(self, path):
        """data that comes out of the user's model or guess, as opposed to parameters of the algorithm"""
        return self.ruled(path) in (None, spd, pos, nonneg)

    def atzero(self, path):
        """positive data of which zero is a limit case the solver has to survive"""
        return self.ruled(path) is pos

    def istime(self, path):
        return path in ("this.current_t_", "this.dt_") or (path == "arg0" and self.unit.fn in ("solve", "run", "calcControlInput", "calcDhDuList") and self.unit.cls.endswith(("DDPSolver", "FmpcSolver", "CgmresSolver")))

    def extent(self, v, rel, idx):
        p = rel if rel.startswith(("this", "arg", "ret")) else "this" + rel
        return self.sym(v, p, idx)

    def fun(self, v, name, xs, idx):
        key = name
        if ":" in name:
            key = "this" + name.split(":", 1)[1]
            if name.endswith((".#n", ".#r", ".#c")):
                if name.startswith("solve") and xs:
                    if key == "thisret.#r":
                        return int(xs[0])       # BoxQP returns a vector of the dimension of its first argument
                    if key == "this.free_idxs_.#n" or key.startswith("this.llt_free_->.#"):
                        return len(self.free(v, xs))
                return self.sym(v, key, idx)
            if name.startswith("solve") and key == "this.free_idxs_[]" and xs:
                fr = self.free(v, xs)
                return fr[idx[0]] if idx[0] < len(fr) else 0
        for rx, f in self.frules:
            m = re.search(rx, name)
            if m:
                r = f(self, v, m, xs, idx)
                if r is not None:
                    return r
        ty = E.SYMTY.get("fun:" + name, "d")
        s = v.smooth(name, xs, idx)
        if ty == "i":
            return self.pick(v, name, s, self.intout(name))
        if v.mode == "nan" and v.rnd("nan", name, idx) < 0.012:
            return NANV
        if v.mode == "tie":
            q = round(2 * s) / 2
            if 0 < abs(2 * s - round(2 * s)) and abs(abs(2 * s - round(2 * s)) - 0.5) < 1e-7:
                v.fragile += 1
            return q
        for rx, f in self.crules:
            if f in (spd, pos):
                m = rx.search(key)
                if m:
                    if f is pos:
                        return abs(s) + 0.05
                    if len(idx) == 2:
                        i, j = idx
                        ind = v.ind and v.rnd("ind", name) < 0.6
                        if i != j:
                            return (0.9 if ind else 0.3) * v.smooth(name, xs, (min(idx), max(idx)))
                        if ind:
                            return 0.0 if v.rnd("indz", name) < 0.4 else s
                        return 1.6 + s
        return s

    def free(self, v, xs):
        """the free dimensions reported by an opaque BoxQP::solve: a subset of its dimensions"""
        out = []
        for j in range(int(xs[0])):
            q = v.smooth("free", xs, (j,))
            if abs(q + 0.2) < 1e-8:
                v.fragile += 1
            if q > -0.2:
                out.append(j)
        return out

    def intout(self, name):
        return (0, 1, 2, -1)

    def pick(self, v, name, s, vals):
        u = (s + 1.0) / 2 * len(vals)
        k = min(max(int(u), 0), len(vals) - 1)
        if abs(u - round(u)) < 1e-7:
            v.fragile += 1
        return vals[k]

    frules = ()

    def bfun(self, v, name, xs, idx):
        if name.startswith("has:"):
            return 1
        s = v.smooth(name, xs, idx)
        th = -0.8 + 1.6 * v.rnd("bth", name)
        if name.endswith(":throws"):
            th = 0.95
        elif name == "backwardPass:ret" and v.rnd("bpok") < 0.6:
            th = -0.7
        if abs(s - th) < 1e-8:
            v.fragile += 1
        return s > th


def N(p, v, m, idx):
    return v.N


def N1(p, v, m, idx):
    return v.N + 1


def spd(p, v, m, idx):
    if len(idx) < 2:
        return None
    i, j = idx[-2:]
    path = m.string
    if v.mode == "tie":
        return 2.0 if i == j else 0.0
    if v.ind and v.rnd("ind", path.split("[")[0]) < 0.6:
        a, b = min(i, j), max(i, j)
        z = v.rnd("indz", path.split("[")[0]) < 0.4
        return (0.0 if z else 2 * v.rnd(path, idx) - 1) if i == j else 0.9 * (2 * v.rnd(path, idx[:-2] + (a, b)) - 1)
    w = v.rnd("spd", path.split("[")[0])
    if i == j:
        b = 1.2 + v.rnd(path, idx)
        return -b if w < 0.12 and v.rnd("sg", path, idx) < 0.3 else b
    a, b = min(i, j), max(i, j)
    return 0.5 * (2 * v.rnd(path, idx[:-2] + (a, b)) - 1)


def pos(p, v, m, idx):
    if v.mode == "tie":
        return (0.5, 1.0, 0.25, 1.0)[int(v.rnd(m.string, idx) * 4)]
    x = 0.05 + 1.3 * v.rnd(m.string, idx)
    if v.mode == "nan" and v.rnd("nan", m.string, idx) < 0.012:
        return NANV
    return x * float(v.mode[1:]) if v.mode.startswith("s") else x


def nonneg(p, v, m, idx):
    if v.rnd("z", m.string, idx) < 0.2:
        return 0.0
    return pos(p, v, m, idx)


def rint(a, b):
    def f(p, v, m, idx):
        return a + int(v.rnd(m.string, idx) * (b - a + 1))
    return f


def rbool(pr):
    def f(p, v, m, idx):
        return 1 if v.rnd(m.string, idx) < pr else 0
    return f


def rrange(a, b):
    def f(p, v, m, idx):
        if v.mode == "tie":
            return (a, (a + b) / 2, b)[int(v.rnd(m.string, idx) * 3)]
        return a + (b - a) * v.rnd(m.string, idx)
    return f


def rmix(small, b):
    def f(p, v, m, idx):
        return rrange(0.0, small if v.mode != "tie" and v.rnd(m.string, "mix") < 0.5 else b)(p, v, m, idx)
    return f


def rzero(pr, a, b):
    """a..b, and exactly zero with probability pr"""
    def f(p, v, m, idx):
        return 0.0 if v.rnd(m.string, "zero") < pr else rrange(a, b)(p, v, m, idx)
    return f


def konst(c):
    return lambda p, v, m, idx: c


# ---------------------------------------------------------------- DDP
class DdpProfile(Profile):
    def again(self, path, idx):
        if path == "this.current_t_":
            return "arg0", idx
        if path.startswith("this.control_data_.u_list"):
            return "arg2" + path[len("this.control_data_.u_list"):], idx
        if path == "this.control_data_.x_list[]" and idx[0] == 0:
            return "arg1", idx[1:]
        if path.startswith("this.variable_."):
            return "arg2." + path[len("this.variable_."):], idx
        return path, idx

    asym = r"(derivative_list_\[\]\.Lxx$|^calcRunningCostDeriv/\d+\.5$)"

    def t0(self, v):
        return v.sym("arg0" if self.unit.id == "ddp.solve" else "this.current_t_", ())

    def dt(self, v):
        return self.fun(v, "dt", [], ())

    def tdim(self, v, idx):
        return self.stepdim(v, "u", self.t0(v) + (idx[0] if idx else 0) * self.dt(v), *self.drange(v, "zd"))

    def f_dt(self, v, m, xs, idx):
        return 0.5 if v.mode == "tie" else 0.1 + 0.3 * v.rnd("dt")

    def f_inputDim(self, v, m, xs, idx):
        if self.inst[1] >= 0:
            return self.inst[1]
        if not xs:
            return 2
        return self.stepdim(v, "u", xs[0], *self.drange(v, "zd"))

    def f_stateDim(self, v, m, xs, idx):
        return self.inst[0]

    def f_lim(self, v, m, xs, idx):
        """limits: [0] below [1]"""
        if v.mode == "nan" and v.rnd("nanl", idx) < 0.02:
            return NANV
        c = v.smooth("lim", xs, idx[1:])
        w = 0.2 + abs(v.smooth("limw", xs, idx[1:])) * 1.5
        if v.mode == "tie":
            return -1.0 if idx[0] == 0 else 1.0
        return c - w if idx[0] == 0 else c + w

    def f_limr(self, v, m, xs, idx):
        return self.f_inputDim(v, m, xs, idx)

    def f_candcost(self, v, m, xs, idx):
        """the cost of a candidate: mostly not far from the current one"""
        if v.mode in ("tie", "nan") or v.rnd("candcost") < 0.3:
            return None
        return v.sym("this.control_data_.cost_list", tuple(idx)) + (0.1 if v.rnd("candcost", "w") < 0.6 else 0.4) * v.smooth("candcost", xs, idx)

    def f_dv(self, v, m, xs, idx):
        """the expected cost change: mostly a decrease"""
        if v.mode in ("tie", "nan") or v.rnd("dv") < 0.4:
            return None
        s = v.smooth("dv", xs, idx)
        return -0.6 + 0.4 * s if idx[0] == 0 else 0.3 + 0.2 * s

    frules = ((r"^backwardPass:\.dV_$", f_dv), (r"^forwardPass:\.candidate_control_data_\.cost_list$", f_candcost), (r"^dt$", f_dt), (r"^inputDim$", f_inputDim), (r"^stateDim$", f_stateDim), (r"^input_limits_func_\[\]$", f_lim), (r"^input_limits_func_\[\]?\.#[rc]$", f_limr))

    def intout(self, name):
        if name.startswith("procOnce"):
            return (0, 1, 0, -1)
        if name.startswith("solve") or "retval" in name:
            return (-2, -1, 0, 1, 2, 3, 4, 5, 6)
        return (0, 1, 2)

    def udim(self, v, m, idx):
        if self.inst[1] >= 0:
            return self.inst[1]
        return self.tdim(v, idx)

    def argdim(self, v, m, idx):
        """dimension of the guess: mostly right"""
        if v.rnd("badarg") < 0.15 and v.rnd("badarg", idx) < 0.5:
            return int(v.rnd("bd", idx) * 4)
        return self.udim(v, m, idx)

    def argn(self, v, m, idx):
        return v.N if v.rnd("badn") > 0.12 else int(v.rnd("badn2") * 5)

    def outer(self, v, m, idx):
        return self.inst[0]

    rules = (
        (r"^arg2\.#n$", argn), (r"^arg2\[\]\.#r$", argdim),
        (r"config_\.horizon_steps$", N), (r"config_\.max_iter$", rint(0, 3)), (r"config_\.print_level$", rint(0, 4)), (r"config_\.reg_type$", rint(1, 2)),
        (r"config_\.alpha_list\.#r$", rint(1, 3)), (r"config_\.alpha_list$", rrange(0.05, 1.0)),
        (r"config_\.(lambda_factor)$", rrange(1.1, 2.0)), (r"config_\.initial_dlambda$", rrange(0.8, 2.0)),
        (r"config_\.lambda_max$", rrange(0.5, 4.0)), (r"config_\.lambda_min$", rrange(0.05, 0.8)), (r"config_\.lambda_thre$", rrange(0.0, 2.5)), (r"config_\.\w*thre$", rrange(0.0, 0.6)),
        (r"config_\.initial_lambda$", rrange(0.0, 1.5)), (r"this\.lambda_$", rzero(0.12, 0.05, 2.5)), (r"this\.dlambda_$", rrange(0.05, 2.5)),
        (r"(control_data_)\.(x_list|cost_list)\.#[nr]$", N1), (r"control_data_\.u_list\.#n$", N), (r"this\.(k_list_|K_list_|derivative_list_)\.#n$", N),
        (r"\.(u_list\[\]|k_list_\[\]|K_list_\[\]|Lu|Luu|Fuu\[\])\.#r$", udim), (r"\.(Fu|Luu|Lxu|Fuu\[\]|Fxu\[\])\.#c$", udim),
        (r"\.(Fxx|Fuu|Fxu)\.#n$", outer),
        (r"(Luu|Lxx|Vxx_?)$", spd), (r"calcRunningCostDeriv/\d+\.[56]$", spd), (r"calcTerminalCostDeriv/\d+\.[34]$", spd),
    )


class BoxProfile(Profile):
    def dim(self, v, m, idx):
        return self.inst[0] if self.inst[0] >= 0 else 1 + int(v.rnd("vd") * 3)

    GOALS = ("iter", "all", "fact", "back", "all", "swap")

    def long(self, v):
        """in some valuations: data, found by a search, on which the iteration runs long or ends in a rare way"""
        if self.unit.id != "box.solve5" or v.mode != "gen" or v.ind or v.rnd("long") > 0.45:
            return None
        key = (v.seed, self.inst)
        if key not in self.LONG:
            n = self.dim(v, None, ())
            goal = self.GOALS[int(v.rnd("goal") * len(self.GOALS))]
            cfg = [self.sym(v, "this.config_." + c, ()) for c in ("grad_thre", "rel_improve_thre", "armijo_param", "step_factor", "min_step")]
            best = None
            for t in range(150):
                r = lambda *k: v.rnd("long", t, *k)
                H = [[0.0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i):
                        H[i][j] = H[j][i] = 1.6 * (2 * r("h", i, j) - 1)
                    H[i][i] = 1.0 + 1.6 * r("h", i, i)
                g = [5.0 * (2 * r("g", i) - 1) for i in range(n)]
                lo, up = [-0.05 - 1.2 * r("l", i) for i in range(n)], [0.05 + 1.2 * r("u", i) for i in range(n)]
                x = [3.0 * (2 * r("x", i) - 1) for i in range(n)]
                sc = self.simulate(n, H, g, lo, up, x, cfg, goal)
                if best is None or sc > best[0]:
                    best = (sc, H, g, lo, up, x)
            self.LONG[key] = best
        return self.LONG[key]

    LONG = {}

    @staticmethod
    def simulate(n, H, g, lo, up, x, cfg, goal):
        """how well an instance serves the goal: a rough projected Newton run, used to choose data only"""
        gth, rel, arm, fac, mins = cfg
        R = range(n)
        clip = lambda x: [max(min(x[i], up[i]), lo[i]) for i in R]
        ob = lambda x: sum(x[i] * (g[i] + 0.5 * sum(H[i][j] * x[j] for j in R)) for i in R)
        x = clip(x)
        obj = old = ob(x)
        cl, fact, back, swap = None, 0, 0, 0
        for it in range(1, 9):
            if it > 1 and old - obj < rel * abs(old):
                return {"iter": it, "fact": fact, "back": back, "all": 0, "swap": swap}[goal]
            old = obj
            gr = [g[i] + sum(H[i][j] * x[j] for j in R) for i in R]
            pc, cl = cl, [(x[i] == lo[i] and gr[i] > 0) or (x[i] == up[i] and gr[i] < 0) for i in R]
            fr = [i for i in R if not cl[i]]
            if not fr:
                return {"iter": it, "fact": fact, "back": back, "all": it * 10, "swap": swap}[goal]
            if pc is not None and any(p and not c for p, c in zip(pc, cl)):
                swap += 1 + any(c and not p for p, c in zip(pc, cl))
            fact += cl != pc
            if sum(gr[i] ** 2 for i in fr) < gth ** 2:
                return {"iter": it, "fact": fact, "back": back, "all": 0, "swap": swap}[goal]
            # H_free d = -grad by elimination
            A = [[H[i][j] for j in fr] + [-gr[i]] for i in fr]
            m = len(fr)
            for c in range(m):
                if A[c][c] < 1e-6:
                    return -1
                for q in range(c + 1, m):
                    f = A[q][c] / A[c][c]
                    A[q] = [a - f * b for a, b in zip(A[q], A[c])]
            d = [0.0] * n
            for c in reversed(range(m)):
                d[fr[c]] = (A[c][m] - sum(A[c][q] * d[fr[q]] for q in range(c + 1, m))) / A[c][c]
            dg = sum(d[i] * gr[i] for i in R)
            if not dg < -1e-9:
                return -1
            st = 1.0
            y = clip([x[i] + d[i] for i in R])
            while (ob(y) - old) / (st * dg) < arm:
                st *= fac
                back += it > 1
                y = clip([x[i] + st * d[i] for i in R])
                if st < mins:
                    return {"iter": it, "fact": fact, "back": back, "all": 0, "swap": swap}[goal]
            x, obj = y, ob(y)
        return 0

    def maxit(self, v, m, idx):
        return 8 if self.long(v) is not None else None

    def hmat(self, v, m, idx):
        z = self.long(v)
        if z is not None and len(idx) == 2 and max(idx) < len(z[2]):
            return z[1][idx[0]][idx[1]]
        x = spd(self, v, m, idx)
        w = self.swap(v)
        if w is not None and len(idx) == 2 and set(idx) == set(w[:2]):
            return 0.4 + 0.5 * v.rnd("hs")
        return x if x is None or idx[0] == idx[1] or v.mode == "tie" or v.rnd("cpl") < 0.5 else 2.2 * x

    def swap(self, v):
        """in some valuations: a dimension that leaves its limit in the step in which another one reaches its own"""
        n = self.dim(v, None, ())
        if self.unit.id != "box.solve5" or v.mode == "tie" or n < 2 or v.rnd("swap") > 0.3 or self.long(v) is not None:
            return None
        a = int(v.rnd("swapa") * n)
        return a, (a + 1 + int(v.rnd("swapb") * (n - 1))) % n, n

    def grad(self, v, m, idx):
        z = self.long(v)
        if z is not None and idx and idx[0] < len(z[2]):
            return z[2][idx[0]]
        w = self.swap(v)
        if w is None or not idx:
            return None
        a, b, n = w
        i = idx[0]
        x = [min(max(v.sym("arg4", (j,)), v.sym("arg2", (j,))), v.sym("arg3", (j,))) for j in range(n)]
        d = -0.05 - 0.1 * v.rnd("da") if i == a else -4.0 if i == b else 2 * v.rnd("dc", i) - 1
        return d - sum(v.sym("arg0", (i, j)) * x[j] for j in range(n))

    def guess(self, v, m, idx):
        z = self.long(v)
        if z is not None and idx and idx[0] < len(z[2]):
            return z[5][idx[0]]
        w = self.swap(v)
        if w is not None and idx:
            return 3.0 if idx[0] == w[0] else -3.0 if idx[0] == w[1] else v.rnd("gc", idx) - 0.5
        r = v.rnd("outside", idx)
        return None if r > 0.5 else 3.0 if r < 0.25 else -3.0

    def lower(self, v, m, idx):
        z = self.long(v)
        if z is not None and idx and idx[0] < len(z[2]):
            return z[3][idx[0]]
        if v.mode == "tie":
            return (-1.0, -0.5, 0.0)[int(v.rnd("lo", idx) * 3)]
        return -0.05 - 1.2 * v.rnd("lo", idx) + (0.6 if v.rnd("sh", idx) < 0.3 else 0)

    def upper(self, v, m, idx):
        z = self.long(v)
        if z is not None and idx and idx[0] < len(z[2]):
            return z[4][idx[0]]
        if v.mode == "tie":
            return (0.0, 0.5, 1.0)[int(v.rnd("up", idx) * 3)]
        return 0.05 + 1.2 * v.rnd("up", idx) + (0.6 if v.rnd("sh", idx) < 0.3 else 0)

    grad.loose = True       # suggests values, restricts nothing

    rules = (
        (r"^this\.var_dim_$", dim), (r"^arg\d\.#[rc]$", dim), (r"^arg0$", hmat), (r"^arg1$", grad), (r"^arg2$", lower), (r"^arg3$", upper), (r"^arg4$", guess),
        (r"config_\.max_iter$", maxit), (r"config_\.max_iter$", rint(0, 6)), (r"config_\.print_level$", rint(0, 4)), (r"config_\.step_factor$", rrange(0.3, 0.7)),
        (r"config_\.min_step$", rrange(0.02, 0.3)), (r"config_\.armijo_param$", rrange(0.05, 0.9)),
        (r"config_\.(grad_thre)$", rmix(0.002, 0.6)), (r"config_\.rel_improve_thre$", rmix(0.002, 0.5)),
        (r"#[rc]$", dim), (r"#n$", rint(0, 2)),
    )


DDP = "nmpc_ddp::DDPSolver"
BOX = "nmpc_ddp::BoxQP"
D2 = [(3, 2), (3, -1)]


class Desc:
    pass


def problem(tag, cls, insts, queries):
    """the queries of the problem base classes, which are opaque to every other unit"""
    out = [Unit("%s.prob.ctor" % tag, cls, cls.split("::")[-1], insts, np=1, public=True)]
    for q in queries:
        out.append(Unit("%s.prob.%s" % (tag, q), cls, q, insts, np=0, public=True))
        if q.endswith("Dim") and q != "stateDim":
            out.append(Unit("%s.prob.%s_t" % (tag, q), cls, q, insts, np=1, public=True))
    for u in out:
        u.opaque = ()
    return out


ddp = Desc()
ddp.name = "ddp"
ddp.opaque = ("DDPProblem",)
ddp.units = [
    Unit("ddp.solve", DDP, "solve", D2, anchors=("ddp.procOnce",), public=True, obs=r"^this\.(control_data_|trace_data_list_|config_)"),
    Unit("ddp.procOnce", DDP, "procOnce", D2, anchors=("ddp.backwardPass", "ddp.forwardPass"), callers=("ddp.solve",)),
    Unit("ddp.backwardPass", DDP, "backwardPass", D2, anchors=("box.solve5", "box.solve4"), callers=("ddp.procOnce",)),
    Unit("ddp.forwardPass", DDP, "forwardPass", D2, callers=("ddp.procOnce",)),
    Unit("ddp.dump", DDP, "dumpTraceDataList", D2, public=True),
    Unit("ddp.ctor", DDP, "DDPSolver", D2, public=True),
    Unit("ddp.setlim", DDP, "setInputLimitsFunc", D2, public=True),
    Unit("box.solve5", BOX, "solve", [(-1,), (3,)], np=5, public=True, callers=("ddp.backwardPass", "box.solve4")),
    Unit("box.solve4", BOX, "solve", [(-1,), (3,)], np=4, public=True, callers=("ddp.backwardPass",)),
    Unit("box.ctor", BOX, "BoxQP", [(-1,), (3,)], public=True),
    Unit("ddp.acc.control", DDP, "controlData", D2, public=True),
    Unit("ddp.acc.trace", DDP, "traceDataList", D2, public=True),
    Unit("ddp.acc.config", DDP, "config", D2, public=True),
    Unit("box.acc.trace", BOX, "traceDataList", [(-1,), (3,)], public=True),
    Unit("box.acc.config", BOX, "config", [(-1,), (3,)], public=True),
] + problem("ddp", "nmpc_ddp::DDPProblem", D2, ("stateDim", "inputDim", "dt"))


def ddp_inst(u, ci):
    if u.cls == BOX:
        return (-1,) if ci is None or ci[-1] < 0 else (ci[-1],) if (ci[-1],) in u.insts else (-1,)
    return None


ddp.inst_map = ddp_inst


def ddp_profile(mod, unit, inst):
    return (BoxProfile if unit.cls == BOX else DdpProfile)(mod, unit, inst)


ddp.profile = ddp_profile

# ---------------------------------------------------------------- FMPC
FM = "nmpc_fmpc::FmpcSolver"


class FmpcProfile(DdpProfile):
    def t0(self, v):
        return v.sym("arg0" if self.unit.id == "fmpc.solve" else "this.current_t_", ())

    def hs(self, v, m, idx):
        return v.N

    def gdim(self, v, m, idx):
        if self.inst[2] >= 0:
            return self.inst[2]
        return self.stepdim(v, "g", self.t0(v) + (idx[0] if idx else 0) * self.dt(v), *self.drange(v, "zg"))

    def f_ineqDim(self, v, m, xs, idx):
        if self.inst[2] >= 0:
            return self.inst[2]
        if not xs:
            return 2
        return self.stepdim(v, "g", xs[0], *self.drange(v, "zg"))

    def f_kkt(self, v, m, xs, idx):
        return 3.0 + 3.0 * v.smooth("kkt", xs, idx)

    frules = DdpProfile.frules + ((r"^ineqDim$", f_ineqDim), (r"^ineqConst\.#r$", f_ineqDim), (r"^calcKktError:ret$", f_kkt))

    def intout(self, name):
        if name.startswith("procOnce"):
            return (0, 1, 2, 3, 4, 5, 6)
        return (0, 1, 2)

    def badn(self, k):
        def f(p, v, m, idx):
            n = v.N + k
            if v.rnd("badlen") < 0.35:
                w = v.rnd("badwhich") * 5
                if int(w) == ("x_list", "u_list", "lambda_list", "s_list", "nu_list").index(m.group(1)):
                    return max(0, n + (-1, 1, 2, -2)[int(4 * (w - int(w)))])
            return n
        return f

    def abdim(self, v, m, idx):
        if v.rnd("badarg") < 0.12 and v.rnd("badarg", m.string, idx) < 0.4:
            return int(v.rnd("bd", m.string, idx) * 4)
        return (self.udim if "u_list" in m.string else self.gdim)(v, m, idx)

    def aneg(self, v, m, idx):
        if v.rnd("negarg") < 0.15 and v.rnd("na", m.string, idx) < 0.2:
            return -0.3
        return nonneg(self, v, m, idx) if v.rnd("nz") < 0.3 else pos(self, v, m, idx)

    def barrier(self, v, m, idx):
        return pos(self, v, m, idx)

    rules = (
        (r"^arg2\.(x_list|lambda_list)\.#n$", badn(None, 1)), (r"^arg2\.(u_list|s_list|nu_list)\.#n$", badn(None, 0)),
        (r"^arg2\.(u_list|s_list|nu_list)\[\]\.#r$", abdim), (r"^arg2\.(s_list|nu_list)\[\]$", aneg),
        (r"horizon_steps$", N), (r"^arg0$", None),
        (r"config_\.max_iter$", rint(0, 3)), (r"(config_\.|variable_\.|\])print_level$", rint(0, 4)),
        (r"config_\.kkt_error_thre$", rrange(0.1, 5.0)), (r"config_\.(armijo\w*)$", rrange(0.01, 0.6)),
        (r"\.(x_list|lambda_list|coeff_list_)\.#n$", N1), (r"\.(u_list|s_list|nu_list)\.#n$", N),
        (r"this\.(variable_|delta_variable_|arg\d)\.(s_list|nu_list)\[\]$", None),
        (r"this\.variable_\.(s_list|nu_list)\[\]$", pos), (r"^arg0\.(s_list)\[\]$", pos),
        (r"\.(u_list\[\]|Lu|Luu|Lu_bar|k|K)\.#r$", udim if False else DdpProfile.udim), (r"\.(B|Luu|Lxu|D)\.#c$", DdpProfile.udim),
        (r"\.(s_list\[\]|nu_list\[\]|C|D|g_bar)\.#r$", gdim),
        (r"this\.barrier_eps_$", pos), (r"this\.merit_const_scale_$", pos),
        (r"coeff_list_\[\]\.(Luu|Lxx|P)$", spd), (r"calcRunningCostDeriv/\d+\.[56]$", spd), (r"calcTerminalCostDeriv/\d+\.3$", spd),
    )

    def __init__(self, mod, unit, inst):
        self.rules = tuple(r for r in type(self).rules if r[1] is not None)
        Profile.__init__(self, mod, unit, inst)


F2 = [(3, 2, 4), (3, -1, -1)]
fmpc = Desc()
fmpc.name = "fmpc"
fmpc.opaque = ("DDPProblem", "FmpcProblem")
fmpc.units = [
    Unit("fmpc.solve", FM, "solve", F2, anchors=("fmpc.procOnce",), public=True, obs=r"^this\.(variable_|trace_data_list_|coeff_list_|config_)(?!.*\bprint_level)"),
    Unit("fmpc.procOnce", FM, "procOnce", F2, anchors=("fmpc.calcKktError", "fmpc.backwardPass", "fmpc.forwardPass", "fmpc.updateVariables"), callers=("fmpc.solve",)),
    Unit("fmpc.calcKktError", FM, "calcKktError", F2, callers=("fmpc.procOnce",)),
    Unit("fmpc.backwardPass", FM, "backwardPass", F2, callers=("fmpc.procOnce",)),
    Unit("fmpc.forwardPass", FM, "forwardPass", F2, callers=("fmpc.procOnce",)),
    Unit("fmpc.updateVariables", FM, "updateVariables", F2, anchors=("fmpc.setupMeritFunc", "fmpc.calcMeritFunc"), callers=("fmpc.procOnce",)),
    Unit("fmpc.setupMeritFunc", FM, "setupMeritFunc", F2, anchors=("fmpc.calcMeritFunc",), callers=("fmpc.updateVariables",)),
    Unit("fmpc.calcMeritFunc", FM, "calcMeritFunc", F2, callers=("fmpc.setupMeritFunc", "fmpc.updateVariables")),
    Unit("fmpc.checkVariable", FM, "checkVariable", F2, callers=("fmpc.solve",)),
    Unit("fmpc.dump", FM, "dumpTraceDataList", F2, public=True),
    Unit("fmpc.ctor", FM, "FmpcSolver", F2, public=True),
    Unit("fmpc.var.ctor", FM + "::Variable", "Variable", F2, public=True),
    Unit("fmpc.var.reset", FM + "::Variable", "reset", F2, public=True),
    Unit("fmpc.var.nan", FM + "::Variable", "containsNaN", F2, public=True),
    Unit("fmpc.coeff.ctor3", FM + "::Coefficient", "Coefficient", F2, np=3, public=True),
    Unit("fmpc.coeff.ctor1", FM + "::Coefficient", "Coefficient", F2, np=1, public=True),
    Unit("fmpc.coeff.nan", FM + "::Coefficient", "containsNaN", F2, public=True),
    Unit("fmpc.acc.variable", FM, "variable", F2, public=True),
    Unit("fmpc.acc.coeff", FM, "coeffList", F2, public=True),
    Unit("fmpc.acc.trace", FM, "traceDataList", F2, public=True),
    Unit("fmpc.acc.config", FM, "config", F2, public=True),
] + problem("fmpc", "nmpc_fmpc::FmpcProblem", F2, ("ineqDim",))
fmpc.inst_map = None
fmpc.profile = lambda mod, unit, inst: FmpcProfile(mod, unit, inst)

# ---------------------------------------------------------------- C/GMRES
CG = "nmpc_cgmres::CgmresSolver"
GM = "nmpc_cgmres::Gmres"


class CgProfile(Profile):
    def nx(self, v, m, idx):
        return 1 + int(v.rnd("nx") * 2)

    def nu(self, v, m, idx):
        return 1 + int(v.rnd("nu") * 2)

    def nux(self, v, m, idx):
        return self.nu(v, m, idx) * v.N

    def dtr(self, v, m, idx):
        return 0.5 if v.mode == "tie" else 0.3 + 0.3 * v.rnd("dt")

    def dump(self, v, m, idx):
        return 1 + int(v.rnd("ds") * 2)

    ARGS = {"cg.calcDhDuList": {"arg1.#r": "x", "arg2.#r": "u", "arg2.#c": "n", "arg3.#r": "u", "arg3.#c": "n"},
            "cg.calcControlInput": {"arg1.#r": "x", "arg2.#r": "x", "arg3.#r": "u"}, "cg.eqAmulFunc": {"arg0.#r": "un"}}

    def argsz(self, v, m, idx):
        k = self.ARGS.get(self.unit.id, {}).get(m.string)
        return None if k is None else {"x": lambda: self.nx(v, m, idx), "u": lambda: self.nu(v, m, idx), "n": lambda: v.N, "un": lambda: self.nux(v, m, idx)}[k]()

    def f_argr(self, v, m, xs, idx):
        return self.sym(v, "arg1.#r", ())

    def symmat(self, v, m, idx):
        i, j = idx[-2:]
        return (1.3 if i == j else 0.0) + 0.8 * v.real(m.string, idx)

    frules = ((r"^arg0\.#r$", f_argr),)
    rules = (
        (r"^arg\d\.#[rc]$", argsz),
        (r"problem_->\.dim_x_$", nx), (r"problem_->\.dim_uc_$", nu), (r"problem_->\.x_initial_\.#r$", nx), (r"problem_->\.u_initial_\.#r$", nu),
        (r"horizon_divide_num_$", N), (r"this\.dt_$", dtr), (r"sim_duration_$", rrange(0.2, 1.0)), (r"dump_step_$", dump), (r"k_max_$", rint(1, 3)),
        (r"finite_diff_delta_$", rrange(0.1, 0.6)), (r"steady_horizon_duration_$", rrange(0.4, 1.2)), (r"horizon_increase_ratio_$", rrange(0.2, 1.2)),
        (r"eq_zeta_$", rrange(0.2, 2.0)),
        (r"this\.(x_list_|lmd_list_)\.#r$", nx), (r"this\.(x_list_|lmd_list_)\.#c$", N1), (r"_list\w*\.#r$", nu), (r"_list\w*\.#c$", N),
        (r"delta_u_vec_\.#r$", nux), (r"(x_with_delta_|this\.x_)\.#r$", nx), (r"this\.u_\.#r$", nu), (r"^ret\.#r$", nux),
    )


class GmProfile(CgProfile):
    def dim(self, v, m, idx):
        return 1 + int(v.rnd("gd") * 3)
    rules = ((r"^arg[012]\.#[rc]$", dim), (r"^arg0$", CgProfile.symmat), (r"^arg3$", rint(0, 4)), (r"^arg4$", rrange(0.0, 0.4)),) + CgProfile.rules


class OdeProfile(CgProfile):
    rules = ((r"^arg2\.#r$", CgProfile.nx), (r"^arg5\.#r$", CgProfile.nx), (r"^arg3\.#r$", CgProfile.nu)) + CgProfile.rules
    frules = ((r"^arg0\.#r$", lambda p, v, m, xs, idx: p.nx(v, m, idx)),)


def cg_maps(mod, side, en):
    """member maps refer to the lists they were made from in calcControlInput"""
    fn = side.find(CG, "calcControlInput", None)
    sc = E.Engine(side.prog, opaque_classes=mod.desc.opaque, canon=side.canon)
    sc.run_root(fn)
    for p, o in sc.st.o.items():
        if p.startswith("this."):
            en.st.o[p] = o


cg = Desc()
cg.name = "cgmres"
cg.opaque = ("CgmresProblem", "OdeSolver")
none = [()]
isfn = lambda prog, f: prog.types.kind(f["params"][0]["t"])[0] in ("fn", "op")
cg.units = [
    Unit("cg.setup", CG, "setup", none, public=True),
    Unit("cg.run", CG, "run", none, anchors=("cg.calcControlInput", "cg.setup"), public=True, obs=r"^this\.(x_|u_|u_list_|delta_u_vec_)($|\.)"),
    Unit("cg.calcControlInput", CG, "calcControlInput", none, anchors=("cg.calcDhDuList",), public=True, outs=(3,), obs=r"^(arg3|this\.(u_list_|delta_u_vec_|DhDu_list_)($|\.))"),
    Unit("cg.calcDhDuList", CG, "calcDhDuList", none, callers=("cg.calcControlInput",), outs=(3,)),
    Unit("cg.eqAmulFunc", CG, "eqAmulFunc", none, callers=("cg.calcControlInput",), prep=cg_maps),
    Unit("cg.ctor", CG, "CgmresSolver", none, public=True),
    Unit("gm.solveA", GM, "solve", none, public=True, obs=r"^(arg|this\.err_list_)"),
    Unit("gm.solveF", GM, "solve", none, public=True, obs=r"^(arg|this\.err_list_)"),
    Unit("gm.ctor", GM, "Gmres", none, public=True),
    Unit("ode.euler", "nmpc_cgmres::EulerOdeSolver", "solve", none, public=True),
    Unit("ode.rk", "nmpc_cgmres::RungeKuttaOdeSolver", "solve", none, public=True),
    Unit("cg.prob.dump", "nmpc_cgmres::CgmresProblem", "dumpData", none, public=True),
]
cg.units[-1].opaque = ()
cg.inst_map = None
for u in cg.units:
    if u.id == "gm.solveA":
        u.pick = lambda prog, f: not isfn(prog, f)
    if u.id == "gm.solveF":
        u.pick = isfn


def cg_profile(mod, unit, inst):
    return (GmProfile if unit.cls == GM else OdeProfile if unit.id.startswith("ode") else CgProfile)(mod, unit, inst)


cg.profile = cg_profile
MODULES = {"ddp": ddp, "fmpc": fmpc, "cgmres": cg}
