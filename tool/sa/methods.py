"""Models of the std:: and Eigen:: operations the analysed code may use."""
from fractions import Fraction
from . import dag as T
from .dag import (const, ZERO, ONE, TRUE, FALSE, PI, PJ, PL, SYM, FUN, BFUN, LAM, add, sub, mul, neg, div, recip, scale, sqrt,
                  power, MAXN, MINN, ite, band, bor, bnot, truth, igt, lt, le, eq, ge0, gt0, eq0, exists, first, sum_over, subst,
                  is_const, gensym, nan_atom, STRUCT)

NI = ("num", "i")


def _E():
    from . import engine
    return engine


class Methods:
    # ------------------------------------------------------------ std::vector / std::array
    def vec_resize(self, lv, n, val=None, assign=False):
        E = _E()
        k = self.ty.kind(lv.t)
        et = self.ty.strip(k[1])
        old = self.read(lv.path + ".#n", lv.idx, NI)
        keep = FALSE if assign else igt(sub(old, PL(0)))
        if val is not None:
            v = self.load(val)
            tmp = self.materialise(v, et, "fill")
        else:
            tmp = E.LV(self.fresh("fill"), (), et)
            self.regtype(tmp)
            ek = self.ty.kind(et)
            if ek[0] == "num":
                self.store(tmp, E.Num(FALSE if ek[1] == "b" else ZERO, ek[1]))
            else:
                self.default_init(tmp)
        for rel, lk in self.ty.leaves(et):
            if lk[0] == "obj":
                continue
            p = lv.path + "[]" + rel
            self.reg(p, lk)
            cur = self.read(p, lv.idx, lk)
            f = self.read(tmp.path + rel, (), lk)
            tot = rel.count("[]")
            if tot:
                f = subst(f, {PL(q): PL(q + 1) for q in range(tot)})
            self.write(p, lv.idx, lk, ite(keep, cur, f))
        self.write(lv.path + ".#n", lv.idx, NI, n)

    def vec_method(self, name, o, args, e):
        E = _E()
        if not isinstance(o, (E.LV, E.Agg)):
            return E.Opq(E.unk("vec." + name))
        k = self.ty.kind(o.t)
        isarr = k[0] == "arr"
        n = self.vsize(o)
        if name in ("size", "length", "max_size"):
            return E.Num(n, "i")
        if name == "empty":
            return E.Num(eq(n, ZERO, True), "b")
        if name in ("operator[]", "at"):
            return self.elem(o, self.num(args[0]).b, n)
        if name == "back":
            return self.elem(o, sub(n, ONE), n)
        if name == "front":
            return self.elem(o, ZERO, n)
        if name in ("begin", "cbegin", "end", "cend", "data", "rbegin", "rend"):
            lv = o if isinstance(o, E.LV) else self.materialise(o, o.t)
            if name in ("begin", "cbegin"):
                return E.Iter(lv, ZERO)
            if name in ("end", "cend"):
                return E.Iter(lv, n)
            if name == "data":
                return E.Iter(lv, ZERO)
            return E.Opq(E.unk("vec." + name))
        if not isinstance(o, E.LV):
            return E.Opq(E.unk("vec." + name))
        if name == "fill" and isarr:
            v = self.load(args[0])
            tmp = self.materialise(v, k[1], "fill")
            for rel, lk in self.ty.leaves(k[1]):
                if lk[0] != "obj":
                    f = self.read(tmp.path + rel, (), lk)
                    self.write(o.path + "[]" + rel, o.idx, lk, f)
            return E.VOID
        if name == "clear":
            self.write(o.path + ".#n", o.idx, NI, ZERO)
            return E.VOID
        if name in ("reserve", "shrink_to_fit"):
            return E.VOID
        if name == "resize":
            self.vec_resize(o, self.num(args[0]).b, args[1] if len(args) > 1 else None)
            return E.VOID
        if name == "assign":
            a0 = self.load(args[0])
            if isinstance(a0, E.Iter) or not isinstance(a0, E.Num):
                self.store(o, self.construct_value(o.t, args))
                return E.VOID
            self.vec_resize(o, self.num(args[0]).b, args[1], True)
            return E.VOID
        if name in ("push_back", "emplace_back"):
            et = self.ty.strip(k[1])
            ek = self.ty.kind(et)
            vals = list(args)
            if name == "push_back" or (len(vals) == 1 and isinstance(self.load(vals[0]), (E.Agg, E.Num)) and ek[0] != "rec"):
                v = self.load(vals[0]) if vals else None
            else:
                v = None
            el = E.LV(o.path + "[]", o.idx + (n,), et)
            self.regtype(E.LV(o.path, (), o.t))
            if v is not None:
                self.store(el, v)
            elif ek[0] == "rec":
                a0 = self.load(vals[0]) if len(vals) == 1 else None
                if isinstance(a0, E.Agg) and self.ty.kind(a0.t) == ek:
                    self.store(el, a0)
                else:
                    fn = self.pick_ctor(et, vals)
                    self.construct(el, {"fn": fn["id"]} if fn else None, vals)
            else:
                self.store(el, self.construct_value(et, vals))
            self.write(o.path + ".#n", o.idx, NI, add(n, ONE))
            return el
        if name == "pop_back":
            self.write(o.path + ".#n", o.idx, NI, sub(n, ONE))
            return E.VOID
        if name == "swap":
            a, b = self.load(o), self.load(args[0])
            self.store(o, b)
            self.store(args[0], a)
            return E.VOID
        if name in ("capacity",):
            return E.Num(E.unk("capacity"), "i")
        self.havoc(o, "vec." + name)
        return E.Opq(E.unk("vec." + name))

    def havoc(self, o, why):
        E = _E()
        if isinstance(o, E.LV):
            for rel, lk in self.ty.leaves(o.t):
                if lk[0] != "obj":
                    self.write(o.path + rel, o.idx, lk, E.unk(why))

    def pick_ctor(self, t, args):
        c = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == t]
        ok = [f for f in c if len(f["params"]) == len(args)]
        if not ok:
            ok = [f for f in c if len(f["params"]) >= len(args) and all(p.get("dflt") is not None for p in f["params"][len(args):])]
        return ok[0] if ok else None

    # ------------------------------------------------------------ other std methods
    def std_method(self, cls, name, f, o, args, e):
        E = _E()
        if name in ("get",) and isinstance(o, (E.LV, E.Ptr)):
            return self.load(o)
        if name in ("operator->", "operator*"):
            v = self.load(o)
            return v if name == "operator->" else self.deref(v)
        if cls.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
            if name.startswith("operator_conv") or name == "operator bool":
                return self.num(self.load(o)) if not isinstance(self.load(o), E.Ptr) else E.Num(FALSE if self.load(o).lv is None else TRUE, "b")
            if name == "reset":
                if isinstance(o, E.LV):
                    self.st.o[o.path] = self.load(args[0]) if args else E.Ptr(None)
                return E.VOID
            return E.Opq(E.unk(cls + name))
        if "stream" in cls or "ios" in cls:
            v = self.load(o)
            if isinstance(v, E.Stream):
                if name == "open":
                    tgt = self.target(args[0]) if args else "file:?"
                    self.event("open", (v.name, tgt))
                    if isinstance(o, E.LV):
                        self.st.o[o.path] = E.Stream(tgt, "file")
                        if o.path.startswith("this."):
                            self.event("mopen", (tgt,))
                    return E.VOID
                if name in ("operator<<",):
                    return self.stream([v] + args, e)
                if name in ("precision", "setf", "width", "flush", "close", "str", "unsetf", "fill"):
                    if name == "str":
                        return E.Opq(("str", "?"))
                    if name == "close":
                        self.event("mclose", (v.name,))
                    return E.VOID
                if name == "write" or name == "put":
                    self.event("out", (v.kind, v.name, ("opq", None)))
                    return v
                return E.Num(E.unk("stream." + name), "b")
            return E.Opq(("stream",))
        if cls.startswith("std::function"):
            if name == "operator()":
                return self.call_value(o, args, f, e.get("t") if e else None)
            if name.startswith("operator"):
                return self.num(o)
            return E.VOID
        if cls.startswith("std::chrono") or "chrono" in cls:
            return self.time_val(e)
        if cls.startswith(("std::basic_string", "std::__cxx11::basic_string")):
            if name in ("size", "length"):
                return E.Num(FUN("strlen", ()), "i")
            if name == "empty":
                return E.Num(E.unk("strempty"), "b")
            return E.Opq(("str", "?"))
        if cls.startswith("std::optional"):
            if name in ("has_value", "operator bool") or name.startswith("operator_conv"):
                return E.Num(truth(self.read(o.path + ".#has", o.idx, ("num", "b"))), "b") if isinstance(o, E.LV) else E.Num(E.unk("opt"), "b")
            if name in ("value",) and isinstance(o, E.LV):
                return E.LV(o.path + ".val", o.idx, self.ty.strip(self.ty.kind(o.t)[1]))
            if name == "reset" and isinstance(o, E.LV):
                self.write(o.path + ".#has", o.idx, ("num", "b"), FALSE)
                return E.VOID
        if cls.startswith(("std::initializer_list",)):
            v = self.load(o)
            if name == "size" and isinstance(v, E.Opq) and isinstance(v.n, tuple) and v.n[0] == "list":
                return E.Num(const(len(v.n[1])), "i")
        if cls.startswith("std::numeric_limits"):
            return self.limits(name, e)
        if cls.startswith(("std::unordered_map", "std::map")) and name in ("at", "operator[]", "find"):
            return E.Opq(("str", "?"))
        k = self.ty.kind(e["t"]) if e and "t" in e else ("void",)
        if k[0] == "num":
            return E.Num(E.unk(cls + "::" + name), k[1])
        return E.Opq(E.unk(cls + "::" + name))

    def time_val(self, e):
        E = _E()
        k = self.ty.kind(e["t"]) if e and "t" in e else ("op",)
        if k[0] == "num":
            return E.Num(FUN("TIME", ()), "d")
        return E.Opq(("time",))

    def limits(self, name, e):
        E = _E()
        k = self.ty.kind(e["t"]) if e else ("num", "d")
        big = Fraction(2) ** 1024 - Fraction(2) ** 971
        if k == ("num", "d"):
            if name == "max":
                return E.Num(const(big), "d")
            if name == "lowest":
                return E.Num(const(-big), "d")
            if name == "min":
                return E.Num(const(Fraction(1, 2 ** 1022)), "d")
            if name == "epsilon":
                return E.Num(const(Fraction(1, 2 ** 52)), "d")
            if name == "infinity":
                return E.Num(FUN("infconst", ()), "d")
            if name in ("quiet_NaN", "signaling_NaN"):
                return E.Num(FUN("nanconst", ()), "d")
        if k == ("num", "i"):
            if name == "max":
                return E.Num(const(2 ** 31 - 1), "i")
            if name in ("min", "lowest"):
                return E.Num(const(-2 ** 31), "i")
        return E.Num(E.unk("limits::" + name), "d")

    # ------------------------------------------------------------ std functions
    def std_call(self, q, f, args, e):
        E = _E()
        n = q.split("::")[-1]
        if "chrono" in q:
            return self.time_val(e)
        if q.startswith("std::numeric_limits"):
            return self.limits(n, e)
        if n in ("max", "min") and q.startswith("std::"):
            if len(args) == 1:
                v = self.load(args[0])
                if isinstance(v, E.Opq) and isinstance(v.n, tuple) and v.n[0] == "list":
                    xs = [self.num(x) for x in v.n[1]]
                elif isinstance(v, E.Agg):
                    return E.Num(E.unk("max-list"), "d")
                else:
                    return E.Num(E.unk("max"), "d")
            else:
                xs = [self.num(a) for a in args[:2]]
            r = xs[0]
            for x in xs[1:]:
                ii = r.ty in "ib" and x.ty in "ib"
                r = E.Num(self.minmax(n, r.b, x.b, ii), r.ty if r.ty == x.ty else "d")
            return r
        if n in ("abs", "fabs", "labs"):
            x = self.num(args[0])
            return E.Num(self.absb(x.b), x.ty)
        if n == "sqrt":
            return E.Num(sqrt(self.num(args[0]).b), "d")
        if n in ("exp", "log", "log10", "log2", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "round", "trunc", "log1p", "expm1", "cbrt", "lround", "rint", "nearbyint"):
            x = self.num(args[0])
            c = is_const(x.b)
            return E.Num(FUN(n, (x.b,)), "d" if n != "lround" else "i")
        if n in ("atan2", "fmod", "hypot", "copysign"):
            return E.Num(FUN(n, (self.num(args[0]).b, self.num(args[1]).b)), "d")
        if n in ("fmax", "fmin"):
            return E.Num(FUN(n, (self.num(args[0]).b, self.num(args[1]).b)), "d")
        if n == "pow":
            a, b = self.num(args[0]), self.num(args[1])
            c = is_const(b.b)
            if c is not None and c.denominator == 1 and abs(c) <= 4:
                if c == 2:
                    return E.Num(mul(a.b, a.b), "d")
                return E.Num(power(a.b, int(c)), "d")
            if c == Fraction(1, 2):
                return E.Num(sqrt(a.b), "d")
            return E.Num(FUN("pow", (a.b, b.b)), "d")
        if n in ("isnan", "isinf", "isfinite", "__builtin_isnan", "__builtin_isinf", "__builtin_isfinite"):
            x = self.num(args[0]).b
            nn, ii = nan_atom("NAN", x), nan_atom("INF", x)
            if n.endswith("isnan"):
                return E.Num(nn, "b")
            if n.endswith("isinf"):
                return E.Num(ii, "b")
            return E.Num(bnot(bor(nn, ii)), "b")
        if n == "clamp":
            v, lo, hi = (self.num(a) for a in args[:3])
            ii = all(z.ty in "ib" for z in (v, lo, hi))
            return E.Num(ite(lt(v.b, lo.b, ii), lo.b, ite(lt(hi.b, v.b, ii), hi.b, v.b)), v.ty)
        if n in ("move", "forward", "as_const", "ref", "cref", "addressof", "__addressof"):
            if n in ("addressof", "__addressof"):
                return E.Ptr(args[0])
            return args[0]
        if n == "to_string":
            return E.Opq(("str", "?"))
        if n in ("make_shared", "make_unique"):
            ta = f.get("ta") or []
            t = ta[0].get("t") if ta else None
            if t is None:
                return E.Opq(E.unk(n))
            t = self.ty.strip(t)
            lv = E.LV(self.fresh("heap"), (), t)
            self.regtype(lv)
            k = self.ty.kind(t)
            if k[0] == "rec":
                fn = self.pick_ctor(t, args)
                self.construct(lv, {"fn": fn["id"]} if fn else None, args)
            else:
                self.store(lv, self.construct_value(t, args))
            return E.Ptr(lv, "own")
        if n == "bind":
            return E.Fn("bind", (self.load(args[0]), [a if isinstance(a, E.LV) and False else self.load(a) for a in args[1:]]))
        if n == "invoke" and args:
            return self.call_value_on(self.load(args[0]), args[1:])
        if n == "exchange" and len(args) == 2 and isinstance(args[0], E.LV):
            a, b = self.load(args[0]), self.load(args[1])
            self.store(args[0], b)
            return a
        if n == "inner_product" and len(args) == 4:
            a, b, c = (self.load(x) for x in args[:3])
            if all(isinstance(x, E.Iter) for x in (a, b, c)):
                acc = self.materialise(self.load(args[3]), e["t"], "acc")
                self.synth_loop(a.i, b.i, lambda i: self.store(acc, self.arith("+", self.num(acc), self.arith("*", self.num(self.elem(a.lv, i)), self.num(self.elem(c.lv, add(c.i, sub(i, a.i))))))), ("inner", id(e)))
                return self.load(acc)
        if n == "iota" and len(args) == 3:
            a, b = self.load(args[0]), self.load(args[1])
            if isinstance(a, E.Iter) and isinstance(b, E.Iter):
                v = self.num(args[2])
                self.synth_loop(a.i, b.i, lambda i: self.store(self.elem(a.lv, i), E.Num(add(v.b, sub(i, a.i)), v.ty)), ("iota", id(e)))
                return E.VOID
        if n == "swap" and len(args) == 2:
            a, b = self.load(args[0]), self.load(args[1])
            self.store(args[0], b)
            self.store(args[1], a)
            return E.VOID
        if n == "get" and args:
            ta = f.get("ta") or []
            i = ta[0].get("i") if ta else None
            if i is not None:
                o = args[0]
                k = self.ty.kind(o.t)
                if k[0] == "arr":
                    return self.elem(o, const(int(i)))
                if k[0] == "tup":
                    t = self.ty.strip(k[1][int(i)])
                    return E.LV(o.path + ".<%d>" % int(i), o.idx, t) if isinstance(o, E.LV) else self.subagg(o, ".<%d>" % int(i), t)
        if n in ("make_pair", "make_tuple", "tie") and e is not None:
            if n == "tie":
                return E.Opq(("tie", list(args)))
            return self.construct_value(self.ty.strip(e["t"]), args)
        if n in ("setprecision", "setw", "setfill", "endl", "flush", "fixed", "scientific"):
            return E.Opq(("manip", n))
        if n in ("begin", "cbegin", "end", "cend", "size", "empty") and args:
            return self.vec_method(n, args[0], [], e)
        if n in ("next", "prev") and args:
            it = self.load(args[0])
            d = self.num(args[1]).b if len(args) > 1 else ONE
            if isinstance(it, E.Iter):
                return E.Iter(it.lv, add(it.i, d if n == "next" else neg(d)))
        if n == "distance" and len(args) == 2:
            a, b = self.load(args[0]), self.load(args[1])
            if isinstance(a, E.Iter) and isinstance(b, E.Iter):
                return E.Num(sub(b.i, a.i), "i")
        if n == "accumulate" and len(args) in (3, 4):
            return self.accumulate(args, e)
        if n in ("fill", "fill_n") and len(args) == 3:
            a, b = self.load(args[0]), self.load(args[1])
            if isinstance(a, E.Iter):
                hi = b.i if isinstance(b, E.Iter) else add(a.i, self.num(b).b)
                v = self.load(args[2])
                et = self.ty.strip(self.ty.kind(a.lv.t)[1])
                tmp = self.materialise(v, et, "fill")
                c = band(ge0(sub(PL(0), a.i), True), igt(sub(hi, PL(0))))
                for rel, lk in self.ty.leaves(et):
                    if lk[0] == "obj":
                        continue
                    p = a.lv.path + "[]" + rel
                    cur = self.read(p, a.lv.idx, lk)
                    fb = self.read(tmp.path + rel, (), lk)
                    self.write(p, a.lv.idx, lk, ite(c, fb, cur))
                return E.VOID
        if n in ("copy", "move_backward", "copy_n") and len(args) == 3:
            a, b, d = (self.load(x) for x in args)
            if isinstance(a, E.Iter) and isinstance(d, E.Iter):
                hi = b.i if isinstance(b, E.Iter) else add(a.i, self.num(b).b)
                et = self.ty.strip(self.ty.kind(a.lv.t)[1])
                cnt = sub(hi, a.i)
                src = {}
                for rel, lk in self.ty.leaves(et):
                    if lk[0] != "obj":
                        src[rel] = self.read(a.lv.path + "[]" + rel, a.lv.idx, lk)
                for rel, lk in self.ty.leaves(et):
                    if lk[0] == "obj":
                        continue
                    p = d.lv.path + "[]" + rel
                    off = sub(PL(0), d.i)
                    cur = self.read(p, d.lv.idx, lk)
                    c = band(ge0(off, True), igt(sub(cnt, off)))
                    self.write(p, d.lv.idx, lk, ite(c, subst(src[rel], {PL(0): add(off, a.i)}), cur))
                return E.Iter(d.lv, add(d.i, cnt))
        if n in ("for_each", "transform", "any_of", "all_of", "none_of", "count_if"):
            r = self.algo(n, args, e)
            if r is not None:
                return r
        if n in ("declval", "exit", "abort"):
            return E.VOID
        if not q.startswith("std::"):
            return None
        if "fn" in f and f["fn"] in self.p.fns:
            return None
        return self.unknown_call(q, args, e)

    def synth_loop(self, lo, hi, body, key):
        """counted loop over [lo,hi) with a Python body(i)"""
        E = _E()
        ctr = self.fresh("ctr")
        self.reg(ctr, NI)
        self.write(ctr, (), NI, lo)

        def it():
            i = self.read(ctr, (), NI)
            g = igt(sub(hi, i))
            exits = [(band(self.pc, bnot(g)), self.st.copy())]
            self.pc = band(self.pc, g)
            body(i)
            self.write(ctr, (), NI, add(self.read(ctr, (), NI), ONE))
            return [(self.pc, self.st)], exits
        self.loop({"k": "for", "_id": key, "l": self.line}, it)

    def accumulate(self, args, e):
        E = _E()
        a, b = self.load(args[0]), self.load(args[1])
        if not (isinstance(a, E.Iter) and isinstance(b, E.Iter)):
            return E.Opq(E.unk("accumulate"))
        acc = self.materialise(self.load(args[2]), e["t"], "acc")

        def body(i):
            x = self.elem(a.lv, i)
            if len(args) == 4:
                self.store(acc, self.load(self.call_value(args[3], [acc, x])))
            else:
                self.store(acc, self.arith("+", self.num(acc), self.num(x)))
        self.synth_loop(a.i, b.i, body, ("acc", id(e)))
        return self.load(acc)

    def algo(self, n, args, e):
        E = _E()
        a, b = self.load(args[0]), self.load(args[1])
        if not (isinstance(a, E.Iter) and isinstance(b, E.Iter)):
            return None
        if n == "for_each":
            self.synth_loop(a.i, b.i, lambda i: self.call_value(args[2], [self.elem(a.lv, i)]), (n, id(e)))
            return E.VOID
        if n == "transform" and len(args) == 4:
            d = self.load(args[2])
            if not isinstance(d, E.Iter):
                return None

            def body(i):
                r = self.load(self.call_value(args[3], [self.elem(a.lv, i)]))
                self.store(self.elem(d.lv, add(d.i, sub(i, a.i))), r)
            self.synth_loop(a.i, b.i, body, (n, id(e)))
            return E.VOID
        if n == "transform" and len(args) == 5:
            c, d = self.load(args[2]), self.load(args[3])
            if not (isinstance(c, E.Iter) and isinstance(d, E.Iter)):
                return None

            def body(i):
                off = sub(i, a.i)
                r = self.load(self.call_value(args[4], [self.elem(a.lv, i), self.elem(c.lv, add(c.i, off))]))
                self.store(self.elem(d.lv, add(d.i, off)), r)
            self.synth_loop(a.i, b.i, body, (n, id(e)))
            return E.VOID
        if n in ("any_of", "all_of", "none_of", "count_if"):
            acc = E.LV(self.fresh("acc"), (), None)
            self.reg(acc.path, NI)
            self.write(acc.path, (), NI, ZERO)

            def body(i):
                c = self.cond(self.call_value(args[2], [self.elem(a.lv, i)]))
                if n == "all_of":
                    c = bnot(c)
                self.write(acc.path, (), NI, add(self.read(acc.path, (), NI), ite(c, ONE, ZERO)))
            self.synth_loop(a.i, b.i, body, (n, id(e)))
            v = self.read(acc.path, (), NI)
            if n == "count_if":
                return E.Num(v, "i")
            return E.Num(igt(v) if n == "any_of" else eq(v, ZERO, True), "b")
        return None

    # ------------------------------------------------------------ Eigen static functions
    def tdim_args(self, e, args):
        k = self.ty.kind(e["t"])
        return k

    def eig_static(self, q, f, args, e):
        E = _E()
        n = q.split("::")[-1]
        if n in ("Zero", "Ones", "Identity", "Constant", "Unit", "UnitX", "UnitY", "UnitZ", "LinSpaced", "Random"):
            k = self.static_kind(f, e)
            nums = [self.num(a) for a in args]
            if n == "LinSpaced":
                if len(nums) == 3:
                    sz, lo, hi = nums
                else:
                    sz, (lo, hi) = E.Num(const(k[1] if k[1] > 1 else k[2]), "i"), nums
                i = PI
                b = add(lo.b, mul(i, div(sub(hi.b, lo.b), sub(sz.b, ONE))))
                return E.Num(b, "d", sz.b, ONE, True)
            val = None
            if n == "Constant":
                val = nums[-1]
                nums = nums[:-1]
            r, c = k[1], k[2]
            if len(nums) == 2 and n != "Unit":
                R, C = nums[0].b, nums[1].b
                R = const(r) if r >= 0 else R
                C = const(c) if c >= 0 else C
            elif len(nums) == 1 and n != "Unit":
                R = const(r) if r >= 0 else nums[0].b
                C = const(c) if c >= 0 else nums[0].b
            else:
                R = const(r) if r >= 0 else ZERO
                C = const(c) if c >= 0 else ZERO
            ty = k[4] if len(k) > 4 else "d"
            arr = k[3] if len(k) > 3 else False
            if n == "Zero":
                b = FALSE if ty == "b" else ZERO
            elif n == "Ones":
                b = ONE
            elif n == "Identity":
                b = ite(eq(PI, PJ, True), ONE, ZERO)
            elif n == "Constant":
                b = val.b
                if val.ty == "b" or ty == "b":
                    b = self.tob(val)
            elif n in ("UnitX", "UnitY", "UnitZ"):
                b = ite(eq(PI, const("XYZ".index(n[-1])), True), ONE, ZERO)
            else:
                b = E.unk(q)
            return E.Num(b, ty, R, C, arr)
        return None

    def static_kind(self, f, e):
        """plain tensor kind of DenseBase<Derived>::Zero() etc.: from the class template argument"""
        c = f.get("cls")
        if c is not None:
            x = self.ty.t[self.ty.strip(c)]
            a = x.get("a") or []
            if a and a[0].get("t") is not None:
                k = self.ty.kind(a[0]["t"])
                if k[0] == "ten":
                    return k
                k2 = self.ty.kind(c)
                if k2[0] == "ten":
                    return k2
        k = self.ty.kind(e["t"])
        if k[0] == "ten":
            return k
        # CwiseNullaryOp<Op, Plain>
        x = self.ty.t[self.ty.strip(e["t"])]
        for a in x.get("a") or []:
            if a.get("t") is not None:
                k = self.ty.kind(a["t"])
                if k[0] == "ten":
                    return k
        return ("ten", -1, -1, False, "d")

    def tai(self, f, i=0):
        """i-th integer template argument"""
        ii = [a["i"] for a in (f.get("ta") or []) if "i" in a]
        return int(ii[i]) if i < len(ii) else None

    # ------------------------------------------------------------ Eigen methods
    def eig_method(self, name, f, o, args, e):
        E = _E()
        if isinstance(o, E.Dec) or (isinstance(o, E.LV) and self.ty.kind(o.t)[0] == "dec"):
            return self.dec_method(name, o, args, e)
        if isinstance(o, E.Ptr):
            o = o.lv
        if isinstance(o, E.Tri):
            if name == "solve":
                return self.dec_solve(o, self.ten(args[0]))
            if name in ("toDenseMatrix",):
                m = self.tri_mask(o.mode)
                return E.Num(ite(m, o.mat.b, ZERO), "d", o.mat.r, o.mat.c)
            if name == "transpose":
                md = o.mode
                md = {1: 2, 2: 1, 5: 6, 6: 5}.get(md, md)
                return E.Tri(self.transpose(o.mat), md)
            return E.Opq(E.unk("tri." + name))
        if isinstance(o, E.Diag):
            if name == "diagonal":
                return o.v
            if name == "inverse":
                return E.Diag(self.cwf(recip, o.v))
            if name in ("toDenseMatrix", "eval"):
                return self.diagmat(o)
            o = self.diagmat(o)
        if isinstance(o, E.Cols):
            return self.cols_method(name, o, args, e)
        if isinstance(o, E.Opq) and isinstance(o.n, tuple) and o.n[0] == "comma":
            return o.n[1]
        islv = isinstance(o, E.LV)
        if not islv and not isinstance(o, E.Num):
            v = self.load(o)
            if isinstance(v, E.Num):
                o = v
            else:
                return self.unknown_call(f["q"], [], e)
        if islv and self.ty.kind(o.t)[0] != "ten":
            return self.unknown_call(f["q"], [o], e)
        # ---- structure-preserving on lvalues
        if name in ("noalias",):
            if islv:
                return E.LV(o.path, o.idx, o.t, o.view, True)
            return o
        if name in ("derived", "const_cast_derived", "eval", "matrix", "array", "value", "nestedExpression", "leftCols_", "lazyProduct_"):
            if name == "eval":
                v = self.load(o)
                return E.Num(v.b, v.ty, v.r, v.c, v.arr)
            if name == "value":
                return self.num(self.load(o))
            if name in ("matrix", "array"):
                arr = name == "array"
                if islv:
                    w = self.base_view(o)
                    return E.LV(o.path, o.idx, o.t, E.View(w.r, w.c, w.bi, w.bj, w.vi, w.vj, w.mem, w.scalar, arr), o.noalias)
                return E.Num(o.b, o.ty, o.r, o.c, arr, o.al)
            return o
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            return self.coeff(o, args)
        if name in ("x", "y", "z", "w"):
            return self.coeff(o, [E.Num(const("xyzw".index(name)), "i")])
        r, c = self.dims(o)
        if name == "rows":
            return E.Num(r, "i")
        if name == "cols":
            return E.Num(c, "i")
        if name in ("size", "length"):
            return E.Num(r if c is ONE else (c if r is ONE else mul(r, c)), "i")
        if name in ("outerStride", "innerStride"):
            return E.Num(r if name == "outerStride" else ONE, "i")
        if name == "data":
            return E.Ptr(o) if islv else E.Opq(E.unk("data"))
        colv = is_const(c) == 1
        nums = lambda: [self.num(a).b for a in args]
        if name == "row":
            i, = nums()
            return self.block(o, i, ZERO, ONE, c)
        if name == "col":
            i, = nums()
            return self.block(o, ZERO, i, r, ONE)
        if name in ("head", "tail", "segment"):
            a = nums()
            ti = self.tai(f)
            n = r if colv else c
            rowv = is_const(r) == 1 and not colv
            if name == "segment":
                st = a[0]
                ln = const(ti) if ti is not None and len(a) == 1 else a[1]
            else:
                ln = const(ti) if ti is not None and not a else a[0]
                st = ZERO if name == "head" else sub(n, ln)
            return self.block(o, ZERO, st, ONE, ln) if rowv else self.block(o, st, ZERO, ln, ONE)
        if name in ("block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows",
                    "leftCols", "rightCols", "middleRows", "middleCols"):
            a = nums()
            t0, t1 = self.tai(f, 0), self.tai(f, 1)
            if name == "block":
                if len(a) == 2:
                    return self.block(o, a[0], a[1], const(t0), const(t1))
                return self.block(o, a[0], a[1], a[2], a[3])
            if name.endswith("Corner"):
                h, w = (a[0], a[1]) if len(a) == 2 else (const(t0), const(t1))
                return self.block(o, ZERO if name.startswith("top") else sub(r, h), ZERO if "Left" in name else sub(c, w), h, w)
            if name in ("topRows", "bottomRows"):
                h = a[0] if a else const(t0)
                return self.block(o, ZERO if name[0] == "t" else sub(r, h), ZERO, h, c)
            if name in ("leftCols", "rightCols"):
                w = a[0] if a else const(t0)
                return self.block(o, ZERO, ZERO if name[0] == "l" else sub(c, w), r, w)
            if name == "middleRows":
                h = a[1] if len(a) > 1 else const(t0)
                return self.block(o, a[0], ZERO, h, c)
            w = a[1] if len(a) > 1 else const(t0)
            return self.block(o, ZERO, a[0], r, w)
        if name in ("transpose", "adjoint"):
            if islv:
                return self.mkview(o, c, r, PJ, PI, PJ, PI, TRUE) if False else self.transpose_lv(o)
            return self.transpose(o)
        if name == "diagonal":
            if islv:
                n = r if r is c else (r if is_const(sub(c, r)) is not None and is_const(sub(c, r)) >= 0 else MINN([r, c]))
                return self.mkview(o, n, ONE, PI, PI, PI, ZERO, eq(PI, PJ, True))
            return E.Num(subst(o.b, {PJ: PI}), o.ty, r, ONE, o.arr)
        if name in ("colwise", "rowwise"):
            return E.Cols(self.load(o), name)
        # ---- mutators
        if islv and name in ("setZero", "setOnes", "setConstant", "setIdentity", "fill", "setRandom", "setLinSpaced"):
            a = [self.num(x) for x in args]
            k = self.ty.kind(o.t)
            v = None
            if name in ("setConstant", "fill"):
                v = a[-1]
                a = a[:-1]
            if o.view is None and a:
                if len(a) == 1:
                    r = a[0].b if k[1] < 0 else r
                    if k[1] >= 0 and k[2] < 0:
                        c = a[0].b
                else:
                    r = a[0].b if k[1] < 0 else r
                    c = a[1].b if k[2] < 0 else c
            if name == "setZero":
                b = ZERO
            elif name == "setOnes":
                b = ONE
            elif name == "setIdentity":
                b = ite(eq(PI, PJ, True), ONE, ZERO)
            elif v is not None:
                b = self.tob(v) if k[4] == "b" else v.b
            else:
                b = E.unk("eig." + name)
            self.store(o, E.Num(b, k[4], r, c))
            return o
        if islv and name in ("resize", "conservativeResize", "resizeLike"):
            if name == "resizeLike":
                w = self.dims(args[0] if isinstance(args[0], E.LV) else self.load(args[0]))
                a = [w[0], w[1]]
            else:
                a = nums()
            k = self.ty.kind(o.t)
            if len(a) == 1:
                nr, nc = (a[0], c) if k[2] == 1 or k[1] < 0 else (r, a[0])
            else:
                nr, nc = a
            nr = const(k[1]) if k[1] >= 0 else nr
            nc = const(k[2]) if k[2] >= 0 else nc
            old = self.read(o.path, o.idx, k[:5])
            if k[1] >= 0 and k[2] >= 0:
                return E.VOID
            fresh = self.uninit_ten(k, nr, nc).b
            if name == "conservativeResize":
                keep = band(igt(sub(r, PI)), igt(sub(c, PJ)))
                if k[2] == 1:
                    keep = igt(sub(r, PI))
                if k[1] == 1:
                    keep = igt(sub(c, PJ))
            else:
                # resize() keeps the coefficients when the size is unchanged
                keep = eq(mul(nr, nc), mul(r, c), True)
            b = ite(keep, old, fresh)
            if k[1] < 0:
                self.write(o.path + ".#r", o.idx, NI, nr)
            if k[2] < 0:
                self.write(o.path + ".#c", o.idx, NI, nc)
            self.write(o.path, o.idx, k[:5], b)
            return E.VOID
        if islv and name == "swap":
            a, b = self.load(o), self.load(args[0])
            a, b = E.Num(a.b, a.ty, a.r, a.c), E.Num(b.b, b.ty, b.r, b.c)
            self.store(o, b)
            self.store(args[0], a)
            return E.VOID
        if islv and name in ("normalize", "transposeInPlace"):
            v = self.load(o)
            if name == "normalize":
                self.store(o, self.cwf(lambda x: div(x, self.norm2(v)), v))
            else:
                t = self.transpose(v)
                self.store(o, E.Num(t.b, t.ty, t.r, t.c))
            return E.VOID
        v = self.load(o)
        # ---- decompositions
        if name in ("llt", "ldlt", "fullPivLu", "partialPivLu", "lu", "householderQr", "colPivHouseholderQr", "fullPivHouseholderQr",
                    "completeOrthogonalDecomposition"):
            nm = {"llt": "LLT", "ldlt": "LDLT", "fullPivLu": "FullPivLU", "partialPivLu": "PartialPivLU", "lu": "PartialPivLU",
                  "householderQr": "HouseholderQR", "colPivHouseholderQr": "ColPivHouseholderQR",
                  "fullPivHouseholderQr": "FullPivHouseholderQR", "completeOrthogonalDecomposition": "CompleteOrthogonalDecomposition"}[name]
            return E.Dec(nm, E.Num(v.b, "d", v.r, v.c))
        if name == "triangularView":
            return E.Tri(E.Num(v.b, "d", v.r, v.c), self.tai(f))
        if name == "selfadjointView":
            md = self.tai(f)
            m = self.tri_mask(md)
            return E.Num(ite(m, v.b, subst(v.b, {PI: PJ, PJ: PI})), "d", v.r, v.c)
        if name == "inverse":
            if v.arr:
                return self.cwf(recip, v)
            return self.inverse(E.Num(v.b, "d", v.r, v.c))
        if name == "determinant":
            return E.Num(FUN("det", (LAM([PI, PJ], v.b), v.r)), "d")
        if name == "asDiagonal":
            return E.Diag(v)
        # ---- reductions
        if name in ("norm", "stableNorm", "blueNorm"):
            return E.Num(self.norm2(v), "d")
        if name == "squaredNorm":
            return E.Num(self.sumall(v, mul(v.b, v.b)), "d")
        if name == "lpNorm":
            p = self.tai(f)
            if p == 1:
                return E.Num(self.sumall(v, self.absb(v.b)), "d")
            if p == 2:
                return E.Num(self.norm2(v), "d")
            if p == -1:
                x = self.redall(v, self.absb(v.b))
                n0 = band(igt(v.r), igt(v.c))
                return E.Num(ite(n0, x, ZERO), "d")
            return E.Num(E.unk("lpNorm"), "d")
        if name == "sum":
            b = v.b
            return E.Num(self.sumall(v), "i" if v.ty in "ib" else "d")
        if name == "mean":
            return E.Num(div(self.sumall(v), mul(v.r, v.c)), "d")
        if name == "trace":
            g = gensym("d")
            return E.Num(self.sumn(g, v.r, subst(v.b, {PI: g, PJ: g})), "d")
        if name == "prod":
            return E.Num(FUN("prod", (LAM([PI, PJ], v.b), v.r, v.c)), v.ty)
        if name == "dot":
            w = self.ten(args[0])
            n1, b1 = self.vec(v)
            n2, b2 = self.vec(w)
            n = n1 if is_const(n1) is not None or is_const(n2) is None else n2
            b1, b2 = subst(b1, {PJ: ZERO}), subst(b2, {PJ: ZERO})
            return E.Num(self.sumall(E.Num(mul(b1, b2), "d", n, ONE)), "d")
        if name in ("maxCoeff", "minCoeff"):
            if args:
                return E.Num(E.unk(name), "d")
            if name == "maxCoeff":
                return E.Num(self.redall(v, v.b), v.ty)
            return E.Num(neg(self.redall(v, neg(v.b))), v.ty)
        if name == "any":
            return E.Num(self.exall(v, self.tob(E.Num(v.b, v.ty))), "b")
        if name == "all":
            return E.Num(bnot(self.exall(v, bnot(self.tob(E.Num(v.b, v.ty))))), "b")
        if name == "count":
            return E.Num(self.sumall(v, ite(self.tob(E.Num(v.b, v.ty)), ONE, ZERO)), "i")
        if name in ("allFinite", "hasNaN"):
            bad = nan_atom("NAN", v.b)
            if name == "allFinite":
                bad = bor(bad, nan_atom("INF", v.b))
                return E.Num(bnot(self.exall(v, bad)), "b")
            return E.Num(self.exall(v, bad), "b")
        if name in ("isZero", "isApprox", "isIdentity", "isConstant", "isMuchSmallerThan"):
            return E.Num(E.unk("eig." + name), "b")
        # ---- coefficient-wise
        un = {"abs": self.absb, "cwiseAbs": self.absb, "sqrt": sqrt, "cwiseSqrt": sqrt, "square": lambda x: mul(x, x), "abs2": lambda x: mul(x, x),
              "cwiseAbs2": lambda x: mul(x, x), "cwiseInverse": recip, "cube": lambda x: mul(x, mul(x, x)),
              "exp": lambda x: FUN("exp", (x,)), "log": lambda x: FUN("log", (x,)), "sin": lambda x: FUN("sin", (x,)), "cos": lambda x: FUN("cos", (x,)),
              "tanh": lambda x: FUN("tanh", (x,)), "floor": lambda x: FUN("floor", (x,)), "ceil": lambda x: FUN("ceil", (x,)),
              "rsqrt": lambda x: recip(sqrt(x)),
              "sign": lambda x: sub(ite(lt(ZERO, x), ONE, ZERO), ite(lt(x, ZERO), ONE, ZERO)),
              "cwiseSign": lambda x: sub(ite(lt(ZERO, x), ONE, ZERO), ite(lt(x, ZERO), ONE, ZERO)),
              "real": lambda x: x, "conjugate": lambda x: x}
        if name in un and not args:
            return self.cwf(un[name], v)
        if name in ("isNaN", "isInf", "isFinite"):
            nn, ii = nan_atom("NAN", v.b), nan_atom("INF", v.b)
            b = nn if name == "isNaN" else ii if name == "isInf" else bnot(bor(nn, ii))
            return E.Num(b, "b", v.r, v.c, True)
        if name in ("max", "min", "cwiseMax", "cwiseMin"):
            w = self.ten(args[0])
            op = "max" if name.lower().endswith("max") else "min"
            return self.cw2(lambda x, y: self.minmax(op, x, y), v, w)
        if name == "cwiseProduct":
            return self.cw("*", v, self.ten(args[0]))
        if name == "cwiseQuotient":
            return self.cw("/", v, self.ten(args[0]))
        if name in ("cwiseEqual", "cwiseNotEqual"):
            return self.cw2(lambda x, y: self.cmpb("==" if name == "cwiseEqual" else "!=", x, y, False), v, self.ten(args[0]), "b")
        if name == "pow":
            b = self.num(args[0])
            c0 = is_const(b.b)
            if c0 is not None and c0.denominator == 1 and abs(c0) <= 4:
                return self.cwf(lambda x: power(x, int(c0)), v)
            return self.cwf(lambda x: FUN("pow", (x, b.b)), v)
        if name == "cast":
            ta = f.get("ta") or []
            k = self.ty.kind(ta[0]["t"]) if ta and ta[0].get("t") is not None else ("num", "d")
            return E.Num(v.b, k[1] if k[0] == "num" else v.ty, v.r, v.c, v.arr)
        if name == "select":
            a, b = self.ten(args[0]), self.ten(args[1])
            cnd = self.tob(E.Num(v.b, v.ty))
            return E.Num(ite(cnd, a.b, b.b), a.ty, v.r, v.c, True, a.al | b.al)
        if name in ("normalized", "stableNormalized"):
            nn = self.norm2(v)
            return E.Num(ite(lt(ZERO, self.sumall(v, mul(v.b, v.b))), div(v.b, nn), v.b), "d", v.r, v.c)
        if name in ("unaryExpr", "binaryExpr"):
            ops = args
            g = self.load(ops[-1])
            if isinstance(g, (E.Fn, E.Ptr, E.Opq)):
                ins = [E.Num(v.b, v.ty)] + ([E.Num(self.ten(ops[0]).b, "d")] if name == "binaryExpr" else [])
                try:
                    rv = self.load(self.call_value(g, ins))
                    if isinstance(rv, E.Num):
                        return E.Num(rv.b, rv.ty, v.r, v.c, v.arr)
                except E.Unsup:
                    pass
            return E.Num(E.unk(name), "d", v.r, v.c)
        if name == "replicate":
            a = nums()
            return E.Num(subst(v.b, {PI: self.imod(PI, v.r), PJ: self.imod(PJ, v.c)}), v.ty, mul(v.r, a[0]), mul(v.c, a[1] if len(a) > 1 else ONE))
        if name == "reverse":
            return E.Num(subst(v.b, {PI: sub(sub(v.r, ONE), PI), PJ: sub(sub(v.c, ONE), PJ)}), v.ty, v.r, v.c, v.arr)
        if name == "cross":
            return E.Num(E.unk("cross"), "d", const(3), ONE)
        if name == "format":
            w = E.Num(v.b, v.ty, v.r, v.c)
            f = self.load(args[0])
            w.fmt = f.n[1:] if isinstance(f, E.Opq) and isinstance(f.n, tuple) and f.n[0] == "fmt" else (", ", ", ", "", "", "", "")
            return w
        if name == "finished":
            return o
        if name == "lazyProduct":
            return self.matmul(v, self.ten(args[0]))
        if name in ("asPermutation",):
            pass
        if islv:
            self.notes.append("unmodelled Eigen method " + name)
        k = self.ty.kind(e["t"]) if e and "t" in e else ("void",)
        if k[0] == "num":
            return E.Num(E.unk("eig." + name, (LAM([PI, PJ], v.b),)), k[1])
        return E.Num(E.unk("eig." + name, (LAM([PI, PJ], v.b),)), "d", v.r, v.c)

    def transpose_lv(self, o):
        """transposed view; kept as an lvalue so that it can be assigned through"""
        E = _E()
        w = self.base_view(o)
        sw = {PI: PJ, PJ: PI}
        nw = E.View(w.c, w.r, subst(w.bi, sw), subst(w.bj, sw), w.vj, w.vi, w.mem, w.scalar, w.arr)
        lv = E.LV(o.path, o.idx, o.t, nw, o.noalias)
        return TrLV(lv)

    def tri_mask(self, mode):
        lower = mode in (1, 5, 9)
        strict = mode in (9, 10)
        d = sub(PI, PJ) if lower else sub(PJ, PI)
        return igt(d) if strict else ge0(d, True)

    def norm2(self, v):
        return sqrt(self.sumall(v, mul(v.b, v.b)))

    def cols_method(self, name, o, args, e):
        E = _E()
        v = o.v
        if o.ax == "colwise":
            n, mp, out = v.r, PI, (ONE, v.c)
        else:
            n, mp, out = v.c, PJ, (v.r, ONE)
        g = gensym("c")
        if name == "sum":
            b = self.sumn(g, n, subst(v.b, {mp: g}))
        elif name == "squaredNorm":
            x = subst(v.b, {mp: g})
            b = self.sumn(g, n, mul(x, x))
        elif name == "norm":
            x = subst(v.b, {mp: g})
            b = sqrt(self.sumn(g, n, mul(x, x)))
        elif name in ("any",):
            b = exists(g, n, truth(subst(v.b, {mp: g})))
        elif name in ("all",):
            b = bnot(exists(g, n, bnot(truth(subst(v.b, {mp: g})))))
        else:
            b = E.unk("cols." + name)
        return E.Num(b, v.ty, out[0], out[1], v.arr)

    def dec_method(self, name, o, args, e):
        E = _E()
        d = self.load(o)
        if name == "compute":
            v = self.ten(args[0])
            nd = E.Dec(d.kind, E.Num(v.b, "d", v.r, v.c))
            if isinstance(o, E.LV):
                self.store(o, nd)
                return o
            return nd
        if name == "solve":
            return self.dec_solve(d, self.ten(args[0]))
        if name == "info":
            p = BFUN("%s_fail" % d.kind.lower(), (STRUCT("T", d.mat.r, d.mat.c, LAM([PI, PJ], d.mat.b)),))
            return E.Num(ite(p, ONE, ZERO), "i")
        if name in ("isPositive", "isInvertible"):
            p = BFUN("%s_%s" % (d.kind.lower(), name), (STRUCT("T", d.mat.r, d.mat.c, LAM([PI, PJ], d.mat.b)),))
            return E.Num(p, "b")
        if name == "inverse":
            return self.inverse(d.mat)
        if name == "matrixL" and d.kind == "LLT":
            m = FUN("chol", (STRUCT("T", d.mat.r, d.mat.c, LAM([PI, PJ], d.mat.b)),), (PI, PJ))
            return E.Tri(E.Num(m, "d", d.mat.r, d.mat.c), 1)
        if name == "matrixU" and d.kind == "LLT":
            m = FUN("chol", (STRUCT("T", d.mat.r, d.mat.c, LAM([PI, PJ], d.mat.b)),), (PJ, PI))
            return E.Tri(E.Num(m, "d", d.mat.r, d.mat.c), 2)
        return E.Opq(E.unk("dec." + name))


def TrLV(lv):
    return lv
