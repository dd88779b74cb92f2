"""The value-flow model of QPSolver obtained by abstract interpretation of its instantiations, and the
formulas the algorithm has to implement.  Private members are identified by role (what they hold after
analyze(), how results depend on them), never by name."""
from sa.framework import *
from fractions import Fraction
from sa.interp import Program, Interp, LV
from sa import lib   # noqa  (registers the library models)

KINDS = {"PD": "QuadraticProgram<-1, -1", "PS": "QuadraticProgram<7, 5", "PP": "QuadraticProgramSparse<"}
LABEL = {"PD": "dense", "PS": "static", "PP": "sparse"}
CODES = ("Optimal", "PolishFailed", "PrimalInfeasible", "DualInfeasible", "MaxIterations", "MaxTime", "Unknown")
_prog = {}


def program():
    if "qp" not in _prog:
        _prog["qp"] = Program(extract("qp"))
    return _prog["qp"]


def cls_type(p, kind):
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("feedback::QPSolver") and "ref" not in t and "rec" in t \
                and t["rec"] in p.records:
            if KINDS[kind] in t["s"].replace("smooth::feedback::", ""):
                return t
    raise AnchorMissing("class QPSolver is not instantiated for %s" % KINDS[kind])


def method(p, t, name, npar=None):
    c = [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == name and f.get("body")]
    if npar is not None:
        c = [f for f in c if len(f["ps"]) == npar]
    if not c:
        raise AnchorMissing("QPSolver::%s" % name)
    return c[0]


def argname(p, q):
    s = p.types[q["t"]].get("s", "")
    if "optional" in s:
        return "ws"
    if "QPSolverParams" in s:
        return "prm"
    return "pbm"


def conj(*xs):
    return and_(*xs)


class Model:
    """symbolic post-state of analyze() and solve() for one problem kind"""

    def __init__(self, kind, scaling=True, alias=False):
        self.kind = kind
        self.scaled = scaling
        self.alias = alias        # the guess is the solver's own sol()
        self.label = "%s, scaling %s" % (LABEL[kind], "on" if scaling else "off")
        p = self.p = program()
        t = self.t = cls_type(p, kind)
        self.sparse = kind == "PP"
        self.n, self.m = (P(5), P(7)) if kind == "PS" else (sym("n", True), sym("m", True))
        n, m = self.n, self.m
        tm.SIZE_SYMS.update({"n", "m"})
        self.pd = {"pbm.P": (n, n), "pbm.q": (n, ONE), "pbm.A": (m, n), "pbm.l": (m, ONE), "pbm.u": (m, ONE)}
        rec = p.records[t["rec"]]
        self.f_prm = self.f_sol = self.f_dec = None
        for f in rec["fields"]:
            ft = p.types[f["t"]]
            s = ft.get("s", "")
            if "QPSolverParams" in s:
                self.f_prm = f["name"]
            elif "QPSolution<" in s:
                self.f_sol = f["name"]
            elif "LDLTWrapper" in s or "LDLT" in s:
                self.f_dec = f["name"]
        if not self.f_prm or not self.f_sol:
            raise AnchorMissing("parameter / solution members of QPSolver")
        self.P_ = T.base("pbm.P", n, n)
        self.q = T.base("pbm.q", n, ONE)
        self.A = T.base("pbm.A", m, n)
        self.l = T.base("pbm.l", m, ONE)
        self.u = T.base("pbm.u", m, ONE)
        self.args0 = {}
        self.run_analyze()
        self.run_solve()

    # ------------------------------------------------------------------ analyze
    def interp(self, dims):
        I = Interp(self.p)
        I.strict = True
        I.dims = dims
        return I

    def args(self, I, f):
        out = []
        for q in f["ps"]:
            nm = argname(self.p, q)
            I.st.roots["arg." + nm] = I.symbolic(self.p.types[q["t"]], nm)
            self.args0.setdefault(f["name"], {})[nm] = I.st.roots["arg." + nm]
            out.append(LV("arg." + nm))
        return out

    def run_analyze(self):
        f = self.f_analyze = method(self.p, self.t, "analyze")
        I = self.interp(dict(self.pd))
        I.st.roots["this"] = I.default(self.t, "fresh")
        if not isinstance(I.st.roots["this"], Rec):
            raise AnchorMissing("members of QPSolver")
        self.fresh0 = I.st.roots["this"]
        I.run(f, this=LV("this"), argvals=self.args(I, f))
        self.fresh = I.st.roots["this"]
        self.an = I
        # the same on an arbitrary (already used) object
        ones = {}
        for k, v in self.fresh.fields.items():
            if isinstance(v, Poly) and v == ONE:
                ones[k] = v
            elif isinstance(v, T) and v.rows != ZERO and v.gen() == ONE:
                ones[k] = v
        self.ones = ones
        d = dict(self.pd)

        def dims(prefix, v):
            if isinstance(v, T):
                d[prefix] = (v.rows, v.cols)
            elif isinstance(v, Rec):
                for k, x in v.fields.items():
                    dims(prefix + "." + k, x)
        I2 = self.interp(d)
        I2.st.roots["this"] = I2.symbolic(self.t, "this")
        I2.run(f, this=LV("this"), argvals=self.args(I2, f))
        self.reused = I2.st.roots["this"]

    # ------------------------------------------------------------------ solve
    def run_solve(self):
        d = dict(self.pd)
        n, m = self.n, self.m

        def dims(prefix, v):
            if isinstance(v, T):
                d[prefix] = (v.rows, v.cols)
            elif isinstance(v, Rec):
                for k, x in v.fields.items():
                    dims(prefix + "." + k, x)
        for k, v in self.fresh.fields.items():
            dims("this." + k, v)
        d["ws.val.primal"] = (n, ONE)
        d["ws.val.dual"] = (m, ONE)
        f = self.f_solve = method(self.p, self.t, "solve")
        I = self.I = self.interp(d)
        th = I.symbolic(self.t, "this")
        # class invariant (established by analyze, rule-checked separately): without scaling the
        # scaling factors are one; a sparse system matrix that has been compressed keeps its values
        fl = dict(th.fields)
        if "scaling" not in fl[self.f_prm].fields:
            raise AnchorMissing("QPSolverParams::scaling")
        fl[self.f_prm] = fl[self.f_prm].set("scaling", TRUE if self.scaled else FALSE)
        if not self.scaled:
            for k, one in self.ones.items():
                fl[k] = ONE if isinstance(one, Poly) else tconst(one.rows, one.cols, ONE)
        for k, v in self.fresh.fields.items():
            if isinstance(v, T) and self.sparse and v.meta.get("comp") is not None and v.cols != ONE:
                # reserved but empty until the first solve compresses it
                hold = fl[k]
                cp = bsym("this.%s.compressed" % k)
                fl[k] = T(hold.rows, hold.cols, lambda i, j, h=hold: ite(cp, h.at(i, j), ZERO), meta={"comp": cp})
        th = Rec(th.ty, fl, th.rec)
        self.pre = th
        I.st.roots["this"] = th
        I.let_root = "this"
        av = self.args(I, f)
        if self.alias:
            for q, a in zip(f["ps"], av):
                if argname(self.p, q) == "ws":
                    o = I.st.roots["arg.ws"]
                    if not isinstance(o, Opt):
                        raise AnchorMissing("the optional guess of QPSolver::solve")
                    I.st.roots["arg.ws"] = Opt(TRUE, RefV(LV("this").sub(self.f_sol)))
        ret = I.run(f, this=LV("this"), argvals=av)
        I.let_root = None
        if isinstance(ret, LV):
            ret = ret.get(I)
        if isinstance(ret, RefV):
            ret = ret.lv.get(I)
        self.ret = ret
        self.post = I.st.roots["this"]
        if not isinstance(ret, Rec) or not {"primal", "dual", "code", "objective", "iter"} <= set(ret.fields):
            raise AnchorMissing("the solution returned by QPSolver::solve (%r)" % (ret,))
        self.where = self.p.loc(f)
        self.find_loop()

    def names(self, v):
        from sa.interp import names_of_any
        return names_of_any(v)

    def find_loop(self):
        """the main loop: the one whose leaves the returned solution depends on"""
        nm = self.names(self.ret)
        best = None
        for r in self.I.loops:
            if getattr(r, "closed", False) or r.post or r.end is None:
                continue
            hs = {self.I.leaf_name(h) if not isinstance(h, Bool) else h.a for h in r.heads.values()}
            if hs & nm and self.I.frames is not None:
                # fixed-point loop inside check / scaling excluded: it must contain the solve
                if any(x.startswith("SOL") for v in r.end.values() if isinstance(v, T) for x in self.names(v)):
                    best = r
        if best is None:
            raise AnchorMissing("main iteration of QPSolver::solve")
        L = self.L = best
        self.lwhere = "%s:%s" % (L.file, L.line)
        self.kX = self.kY = self.kZ = self.kIter = None
        nopol = TSub(bools={"this.%s.polish" % self.f_prm: FALSE})

        def dn_of(x):
            x = I.expand(x)
            if isinstance(x, T):
                x = x.gen()
            return evalt.direct_names(subst(x, nopol))
        I = self.I
        pn, dn, itn = (dn_of(self.ret.fields[k]) for k in ("primal", "dual", "iter"))
        for k, h in L.heads.items():
            ln = self.I.leaf_name(h) if not isinstance(h, Bool) else h.a
            if isinstance(h, T) and h.cols == ONE:
                if h.rows == self.n and ln in pn and self.kX is None:
                    self.kX = k
                if h.rows == self.m and ln in dn and self.kY is None:
                    self.kY = k
            if isinstance(h, Poly) and ln in itn:
                self.kIter = k
        if not self.kX or not self.kY or not self.kIter:
            raise AnchorMissing("iterates of QPSolver::solve")
        dep = self.names(L.end[self.kX]) | self.names(L.end[self.kY])
        for k, h in L.heads.items():
            if isinstance(h, T) and h.cols == ONE and h.rows == self.m and k != self.kY and h.name in dep:
                self.kZ = k
        if not self.kZ:
            raise AnchorMissing("slack iterate of QPSolver::solve")
        self.X, self.Y, self.Z = (L.heads[k] for k in (self.kX, self.kY, self.kZ))
        self.iter = L.heads[self.kIter]
        self.X1, self.Y1, self.Z1 = (L.end[k] for k in (self.kX, self.kY, self.kZ))
        self.X0, self.Y0, self.Z0 = (L.init[k] for k in (self.kX, self.kY, self.kZ))
        self.keep = {v.name for v in (self.X1, self.Y1, self.Z1) if v.name in I.lets}
        # scaling factors as used by this solve: the role members after solve
        self.c = self.sx = self.sy = None
        for k in self.ones:
            v = self.post.fields[k]
            if isinstance(v, Poly):
                self.c = v
                self.f_c = k
            elif isinstance(v, T) and v.rows == self.n:
                self.sx = v
                self.f_sx = k
            elif isinstance(v, T) and v.rows == self.m:
                self.sy = v
                self.f_sy = k
        if not self.scaled and (self.c is None or self.sx is None or self.sy is None):
            # not reset by analyze: members the results are made of which solve only reads
            for what, size in (("primal", self.n), ("dual", self.m), ("dual", None)):
                used = self.names(I.expand(self.ret.fields[what]))
                for k, v in self.post.fields.items():
                    o = self.pre.fields[k]
                    if v is not o and repr(v) != repr(o):
                        continue
                    if isinstance(v, T) and size is not None and v.cols == ONE and v.rows == size and I.leaf_name(v) in used:
                        if what == "primal" and self.sx is None:
                            self.sx, self.f_sx = v, k
                        elif what == "dual" and self.sy is None:
                            self.sy, self.f_sy = v, k
                    elif isinstance(v, Poly) and size is None and self.c is None and I.leaf_name(v) in used:
                        self.c, self.f_c = v, k
        if self.c is None or self.sx is None or self.sy is None:
            raise AnchorMissing("scaling factors of QPSolver (members set to one by analyze)")
        self.clet = set()
        for nm_ in evalt.direct_names(self.c):
            if nm_ in I.lets and sym(nm_) == self.c:
                self.clet.add(nm_)
        for v in (self.sx, self.sy):
            if v.name in I.lets:
                self.clet.add(v.name)
        self.keep |= self.clet
        # inside the iteration the factors are loop invariant
        for k in L.heads:
            if k[:2] in (("this", self.f_c), ("this", self.f_sx), ("this", self.f_sy)):
                raise AnchorMissing("scaling factors are modified by the iteration")

    def args0_of(self, fn):
        return self.args0.get(fn, {})

    # ------------------------------------------------------------------ helpers
    def prm(self, k):
        v = self.pre.fields[self.f_prm].fields[k]
        return v

    def full(self, x):
        """all named values replaced by their definitions (scaling factors stay symbols)"""
        return self.I.expand(x, self.clet)

    def part(self, x):
        """named values replaced, except the new iterates and the scaling factors"""
        return self.I.expand(x, self.keep)

    def at_end(self, x):
        """x (over loop-head symbols) evaluated after one iteration"""
        s = TSub()
        x = self.part(x)
        for k, h in self.L.heads.items():
            e = self.L.end.get(k)
            if e is None:
                continue
            self.bind(s, h, e)
        return self.part(self.sub(x, s))

    def at_init(self, x):
        s = TSub()
        x = self.part(x)
        for k, h in self.L.heads.items():
            self.bind(s, h, self.L.init[k])
        return self.part(self.sub(x, s))

    def bind(self, s, h, e):
        if isinstance(h, Poly):
            if isinstance(e, Poly):
                (hk, _), = h.terms.items()
                s[hk[1][0][0]] = e
        elif isinstance(h, Bool):
            if isinstance(e, Bool):
                s.bools[h.a] = e
        elif isinstance(h, T) and isinstance(e, T):
            def f(*ix, e=e):
                if len(ix) == 2:
                    return e.at(*ix)
                return e.at(ix[0], ZERO) if e.cols == ONE else e.at(ZERO, ix[0])
            s.tens[h.name] = f

    def sub(self, x, s):
        if isinstance(x, Poly):
            return subst(x, s)
        if isinstance(x, Bool):
            return subst_b(x, s)
        if isinstance(x, T):
            return T(subst(x.rows, s), subst(x.cols, s), lambda i, j: subst(x.at(i, j), s))
        return x

    def evdims(self):
        return {} if self.kind == "PS" else {"n": [1, 2, 3], "m": [1, 2, 3, 0]}

    INF = {"pbm.l": -1, "pbm.u": 1}

    # ------------------------------------------------------------------ formulas
    def eqrow(self, i):
        """classification of constraint row i -> (unbounded, equality)"""
        l, u = self.l.at(i), self.u.at(i)
        unb = and_(isinf(l, -1), isinf(u, 1))
        eq = lt(self.sy.at(i) * abs_(l - u), P(Fraction("1e-5")))
        return unb, eq

    def spec_rho(self):
        rb = self.prm("rho")

        def f(i, j):
            unb, eq = self.eqrow(i)
            return ite(unb, P(Fraction("1e-6")), ite(eq, P(1000) * rb, rb))
        return T(self.m, ONE, f)

    def spec_H(self):
        """upper triangle of the KKT matrix of the regularised subproblem"""
        n, m, sx, sy, c = self.n, self.m, self.sx, self.sy, self.c
        rho = self.spec_rho()
        sg = self.prm("sigma")

        def f(i, j):
            tl = c * sx.at(i) * sx.at(j) * self.P_.at(i, j) + sg * delta(i, j)
            a = j - n
            tr = sy.at(a) * sx.at(i) * self.A.at(a, i)
            br = -delta(i, j) * inv(rho.at(a))
            return ite(lt(j, n), tl, ite(lt(i, n), tr, br))
        return T(n + m, n + m, f)

    def spec_rhs(self, X, Y, Z):
        n, m = self.n, self.m
        rho = self.spec_rho()
        sg = self.prm("sigma")

        def f(i, j):
            a = sg * X.at(i) - self.c * self.sx.at(i) * self.q.at(i)
            k = i - n
            b = Z.at(k) - Y.at(k) * inv(rho.at(k))
            return ite(lt(i, n), a, b)
        return T(n + m, ONE, f)

    def user_x(self, X):
        return T(self.n, ONE, lambda i, j: self.sx.at(i) * X.at(i))

    def user_y(self, Y):
        return T(self.m, ONE, lambda i, j: self.sy.at(i) * Y.at(i) * inv(self.c))

    def user_z(self, Z):
        return T(self.m, ONE, lambda i, j: Z.at(i) * inv(self.sy.at(i)))

    def Psym(self):
        return tsymU(self.P_)

    def opt_cond(self, x, y, z):
        pa, pr = self.prm("eps_abs"), self.prm("eps_rel")
        Ax = tmul(self.A, x)
        Px = tmul(self.Psym(), x)
        Aty = tmul(ttrans(self.A), y)
        c1 = ge(pa + pr * maxof([norminf(Ax), norminf(z)]) - norminf(tsub(Ax, z)), 0)
        r = tadd(tadd(Px, self.q), Aty)
        c2 = ge(pa + pr * maxof([norminf(Px), norminf(self.q), norminf(Aty)]) - norminf(r), 0)
        return and_(c1, c2)

    def pinf_cond(self, dy):
        """certificate of primal infeasibility: A'dy ~ 0 and u'dy+ + l'dy- < 0 (support function)"""
        e = self.prm("eps_primal_inf")
        N = norminf(dy)
        k = fresh("r")
        tm.RANGES[k] = (ZERO, self.m)
        b = bv(k)
        d = dy.at(b)
        up, lo = maxof([ZERO, d]), minof([ZERO, d])
        ui, li = isinf(self.u.at(b), 1), isinf(self.l.at(b), -1)
        bad = exists_f(k, ZERO, self.m, or_(and_(ui, gt(d - e * N, 0)), and_(li, gt(-d - e * N, 0))))
        s = sum_(k, ZERO, self.m, ite(ui, ZERO, self.u.at(b) * up) + ite(li, ZERO, self.l.at(b) * lo))
        nA = norminf(tmul(ttrans(self.A), dy))
        return and_(not_(bad), gt(e * N - nA, 0), gt(e * N - s, 0))

    def dinf_cond(self, dx):
        """certificate of dual infeasibility: P dx ~ 0, q'dx < 0, A dx in the recession cone"""
        e = self.prm("eps_dual_inf")
        N = norminf(dx)
        k = fresh("r")
        tm.RANGES[k] = (ZERO, self.m)
        b = bv(k)
        v = tmul(self.A, dx).at(b)
        ui, li = isinf(self.u.at(b), 1), isinf(self.l.at(b), -1)
        ok = ite(and_(ui, li), ONE,
                 ite(ui, P(ge(v + e * N, 0)), ite(li, P(ge(e * N - v, 0)), P(gt(e * N - abs_(v), 0)))))
        bad = exists_f(k, ZERO, self.m, not_(gt(ok, 0)))
        return and_(gt(N, 0), ge(e * N - norminf(tmul(self.Psym(), dx)), 0), ge(e * N - tdot(self.q, dx), 0), not_(bad))


