"""Obligations on the active set invariance filter (properties A01..A04): dynamics, safe set, backup controller and groups unknown"""
from fractions import Fraction
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp
from sa.interp import names_of_any
from sa import smooth

_p = {}
INF = tm.sym("INF")
NUM = 0                 # the differentiation method requested in tu/asif.cpp


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("asif", incs=("stub",)))
    return _p["p"]


def start(p):
    I = Interp(p, models=dict(smooth.MODELS, **{"vf::Dyn::operator()": smooth.user("f"), "vf::Safe::operator()": smooth.user("h"),
                                               "vf::Backup::operator()": smooth.user("bu")}))
    I.ext = {"vf::Grp"}
    I.strict = True
    I.dims = {}
    return I


def grp(ty):
    return ty.get("qn") == "vf::Grp"


class Pb:
    """the problem: dimensions and values of its parts"""
    def __init__(self, I, xg):
        self.xg = xg                # the state is a group element (and the input a vector), or the other way round
        self.nx, self.nu, self.nh = (3, 2, 2) if xg else (2, 3, 3)
        self.lab = "state in a group" if xg else "input in a group"
        self.x0 = sym("x0") if xg else T.base("x0", self.nx, 1)
        self.u = T.base("u_des", self.nu, 1) if xg else sym("u_des")
        self.c = T.base("c", self.nu, 1) if xg else sym("c")
        self.K, self.alpha, self.dt, self.relax, self.T = sym("K", True), sym("alpha"), sym("dt"), sym("relax_cost"), sym("T")
        self.nb = sym("nb", True)
        tm.SIZE_SYMS.add("nb")
        tm.SIZE_SYMS.add("K")
        tm.POS_SYMS.update({"dt", "T", "K"})
        self.A = T.base("ulimA", self.nb, self.nu)
        self.l = T.base("uliml", self.nb, 1)
        self.ub = T.base("ulimu", self.nb, 1)
        self.W = T.base("W_u", self.nu, 1)
        self.n = self.K * P(self.nh)            # barrier rows
        self.m = self.n + self.nb + 1
        self.N = P(self.nu + 1)

    def ulim(self, I, ty):
        v = I.symbolic(ty, "ulim")
        v.fields.update(A=self.A, c=self.c, l=self.l, u=self.ub)
        return v

    def pbm(self, I, ty):
        v = I.symbolic(ty, "pbm")
        ft = {f["name"]: I.prog.types[f["t"]] for f in I.prog.records[ty["rec"]]["fields"]}
        v.fields.update(T=self.T, x0=self.x0, u_des=self.u, W_u=self.W, ulim=self.ulim(I, ft["ulim"]))
        return v

    def prm(self, I, ty):
        v = I.symbolic(ty, "prm")
        v.fields.update(K=self.K, alpha=self.alpha, dt=self.dt, relax_cost=self.relax)
        return v

    def qp(self, I, ty):
        """matrices of the right sizes, zero where nothing is ever stored"""
        v = I.symbolic(ty, "qp")
        nu = P(self.nu)

        def A(i, j):
            last, ctl = ge(i - self.n - self.nb, 0), and_(ge(i - self.n, 0), not_(ge(i - self.n - self.nb, 0)))
            z = or_(and_(last, not_(ge(j - nu, 0))), and_(ctl, ge(j - nu, 0)))
            return ite(z, ZERO, el("qpA", i, j))

        def Pm(i, j):
            return ite(or_(and_(ge(i - nu, 0), not_(ge(j - nu, 0))), and_(ge(j - nu, 0), not_(ge(i - nu, 0)))), ZERO, el("qpP", i, j))
        v.fields.update(A=T(self.m, self.N, A), l=T.base("qpl", self.m, 1), u=T.base("qpu", self.m, 1), P=T(self.N, self.N, Pm), q=tconst(self.N, 1, 0))
        return v

    # ---- the formulas
    def fl(self, v):
        return [lam(v) if isinstance(v, T) else v]

    def ph(self, k, v):
        nm = "ph1.%d" % k
        return T.base(nm, v.rows, v.cols) if isinstance(v, T) else sym(nm)

    def f(self, x, u):
        return tfn("f", self.nx, 1, self.fl(x) + self.fl(u))

    def bu(self, t, x):
        return tfn("bu", self.nu, 1, [t] + self.fl(x)) if self.xg else fn("bu", t, *self.fl(x))

    def h(self, t, x):
        return tfn("h", self.nh, 1, [t] + self.fl(x))

    def D(self, v, n, at):
        return T(v.rows, n, lambda i, j: fn("D", v.at(i), j, *self.fl(at)))

    def rows(self, t, x, S):
        """barrier rows A and l at time t, state x and sensitivity S"""
        dhdt = T(self.nh, 1, lambda i, j: fn("D", self.h(self.ph(0, t), x).at(i), ZERO, t))
        dhdx = self.D(self.h(t, self.ph(1, x)), self.nx, x)
        dh0 = tmul(dhdx, S)
        dfdu = self.D(self.f(self.x0, self.ph(0, self.u)), self.nu, self.u)
        A = tmul(dh0, dfdu)
        l = tsub(tsub(tscale(-1, dhdt), tscale(self.alpha, self.h(t, x))), tmul(dh0, self.f(self.x0, self.u)))
        return A, l

    def flow(self, t, x):
        return self.f(x, self.bu(t, x))

    def lin(self, t, x):
        """derivative of the closed-loop dynamics at x"""
        p = self.ph(0, x)
        D = self.D(self.f(p, self.bu(t, p)), self.nx, x)
        return tsub(D, tfn("ad", self.nx, self.nx, (lam(self.flow(t, x)),))) if self.xg else D

    def plus(self, x, d):
        return fn("rplus", x, lam(d)) if self.xg else tadd(x, d)

    def shift(self):
        """u_des - c"""
        return tsub(self.u, self.c) if self.xg else tfn("rminus", self.nu, 1, (self.u, self.c))


def same_x(ck, B, name, got, want, w, **kw):
    (ck.same if B.xg else ck.same_t)(name, got, want, w, **kw)


def one_of(ck, name, got, wants, w, **kw):
    """got is one of several acceptable values"""
    if isinstance(got, T) and any(all(ck.proved(got.at(P(i), P(j)), x.at(P(i), P(j))) for i in range(int(x.rows.const())) for j in range(int(x.cols.const())))
                                  for x in wants):
        return ck.holds(name, w, "normal form")
    res = []
    for x in wants:
        tst = Check(ck.pid, ck.tier, ck.seed)
        tst.same_t(name, got, x, w, **kw)
        res.append(tst)
        if all(o.status == "holds" for o in tst.obs):
            return ck.holds(name, w, "normal form")
    for tst in res:
        if not any(o.status == "violated" for o in tst.obs):
            ck.obs += tst.obs
            return False
    ck.obs += res[-1].obs
    return False


def judge(ck, B, lab, I, qp, w, pid):
    """obligations on a quadratic program made for the problem B, with the run I that made it"""
    K, nh, nu, n, nb = B.K, P(B.nh), P(B.nu), B.n, B.nb
    if not hasattr(qp, "fields") or not all(isinstance(qp.fields.get(x), T) for x in "APqlu"):
        return ck.undecided(lab + "the quadratic program", w, "%r" % (qp,))
    if I.unsupported:
        ck.undecided(lab + "constructs not understood", w, str(I.unsupported[:3]))
    A, l, u = qp.fields["A"], qp.fields["l"], qp.fields["u"]
    if pid == "A03":
        # ------------------------------------------------ everything but the barrier rows
        def rows(t, r0, r, c0=ZERO, c=None):
            return T(r, t.cols if c is None else c, lambda i, j: t.at(i + r0, j + c0))
        for nm, t, r, c in (("A", A, B.m, B.N), ("the lower bounds", l, B.m, ONE), ("the upper bounds", u, B.m, ONE)):
            ck.same(lab + "rows of %s" % nm, t.rows, r, w)
            ck.same(lab + "columns of %s" % nm, t.cols, c, w)
        ck.same_t(lab + "relaxation column of the barrier rows", rows(A, ZERO, n, nu, ONE), tconst(n, ONE, 1), w)
        ck.same_t(lab + "input rows of A", rows(A, n, nb), T(nb, B.N, lambda i, j: ite(ge(j - nu, 0), ZERO, B.A.at(i, j))), w)
        ck.same_t(lab + "last row of A", rows(A, n + nb, ONE), T(ONE, B.N, lambda i, j: ite(ge(j - nu, 0), ONE, ZERO)), w)
        sh = tmul(B.A, B.shift())
        ck.same_t(lab + "lower bounds of the input rows", rows(l, n, nb), tsub(B.l, sh), w)
        ck.same_t(lab + "upper bounds of the input rows", rows(u, n, nb), tsub(B.ub, sh), w)
        ck.same(lab + "the relaxation is not negative", l.at(n + nb), ZERO, w)
        ck.same(lab + "the relaxation is not bounded from above", u.at(n + nb), INF, w)
        ck.same_t(lab + "quadratic cost", qp.fields["P"], T(B.N, B.N, lambda i, j: ite(eq(i, j), ite(ge(i - nu, 0), B.relax, B.W.at(i)), ZERO)), w)
        ck.same_t(lab + "linear cost", qp.fields["q"], tconst(B.N, 1, 0), w)
        return
    # ---------------------------------------------------- the loop over the constraint instants
    outer = [r for r in I.loops if getattr(r, "closed", False) and any(k[-1] in ("A", "l") for k in r.heads)
             and any(e[0] == "step" for e in r.inner)]
    if len(outer) != 1:
        return ck.undecided(lab + "the loop over the constraint instants", w, "%d loops" % len(outer))
    L = outer[0]
    w = I.prog.loc(L.node)
    k = bv(L.iv)
    gi = {L.iv: K}
    tm.RANGES[L.iv] = (ZERO, K)
    key = {}
    for x in L.heads:
        if x[-1] in ("A", "l", "u") and len(x) > 1 or str(x[-1]).split("~")[0] in ("A", "l", "u"):
            key[str(x[-1]).split("~")[0]] = x
    hd = {}
    for x, h in L.heads.items():
        if x in key.values():
            continue
        if isinstance(h, T):
            hd.setdefault("S" if (h.rows, h.cols) == (P(B.nx), P(B.nx)) else "x" if (h.rows, h.cols) == (P(B.nx), ONE) and not B.xg else "?", []).append(x)
        elif isinstance(h, Poly) and isinstance(L.init.get(x), Poly):
            hd.setdefault("x" if B.xg and L.init[x] == B.x0 else "t" if not L.init[x] == B.x0 else "?", []).append(x)
    if any(len(hd.get(a, ())) != 1 for a in "xtS") or not {"A", "l", "u"} <= set(key):
        return ck.undecided(lab + "the loop over the constraint instants", w, "loop variables: %s" % {a: b for a, b in hd.items()})
    kt, kx, kS = hd["t"][0], hd["x"][0], hd["S"][0]
    ht, hx, hS = L.heads[kt], L.heads[kx], L.heads[kS]
    ck.same(lab + "one round per constraint", L.trip, K, w)
    if pid == "A01":
        RA, Rl = B.rows(ht, hx, hS)
        EA, El, Eu = (L.end.get(key[a]) for a in ("A", "l", "u"))
        o = k * nh
        here = lambda i: and_(ge(i - o, 0), not_(ge(i - o - nh, 0)))
        kw = dict(w=w)

        def part(name, e, want, cols, h):
            """the rows of this round; the other barrier rows are left alone"""
            i = gidx("a", nh)
            j = gidx("b", P(cols)) if cols > 1 else ZERO
            g = {L.iv: K, str(list(atoms_of(i))[0][1]): nh}
            if cols > 1:
                g[str(list(atoms_of(j))[0][1])] = P(cols)
            ck.same(name, e.at(o + i, j), want.at(i, j), w, gi=g)
            i = gidx("a", n)
            g = {L.iv: K, str(list(atoms_of(i))[0][1]): n}
            if cols > 1:
                g[str(list(atoms_of(j))[0][1])] = P(cols)
            ck.same(name + ": the others", e.at(i, j), h.at(i, j), w, under=not_(here(i)), gi=g)
        part(lab + "barrier rows of A", EA, RA, B.nu, L.heads[key["A"]])
        part(lab + "lower bounds of the barrier rows", El, Rl, 1, L.heads[key["l"]])
        part(lab + "upper bounds of the barrier rows", Eu, tconst(B.nh, 1, INF), 1, L.heads[key["u"]])
        for a, fin in (("A", A), ("l", l), ("u", u)):
            aft = L.after.get(key[a])
            if not isinstance(aft, T):
                ck.undecided(lab + "barrier rows of %s after the loop" % a, w, repr(aft))
                continue
            cols = nu if a == "A" else ONE
            ck.same_t(lab + "barrier rows of %s after the loop" % a, T(n, cols, fin.at), T(n, cols, aft.at), w)
        return
    # ---------------------------------------------------- the trajectory (A02)
    ck.same(lab + "the first constraint is at time 0", L.init[kt], ZERO, w)
    same_x(ck, B, lab + "the first constraint is at the initial state", L.init[kx], B.x0, w)
    ck.same_t(lab + "the sensitivity starts as the identity", L.init[kS], tident(B.nx, B.nx), w)
    inn = [r for r in I.loops if not getattr(r, "closed", False) and kt in r.heads and kx in r.heads and r.fn == L.fn]
    if len(inn) != 1 or inn[0].breaks or kS not in inn[0].heads:
        return ck.undecided(lab + "the integration between constraints", w, "%d loops" % len(inn))
    R = inn[0]
    w = I.prog.loc(R.node)
    t, x, S = R.heads[kt], R.heads[kx], R.heads[kS]
    go = gt(K - 1 - k, 0)           # there is a next constraint
    nxt = mulp(B.T, inv(K)) * (k + 1)
    ck.same(lab + "the integration starts where the last one ended", R.init[kt], ht, w)
    same_x(ck, B, lab + "the integration starts at the state of the constraint", R.init[kx], hx, w)
    ck.same_t(lab + "the integration starts with the sensitivity of the constraint", R.init[kS], hS, w)
    ck.same(lab + "the next constraint is where the integration ended", L.end.get(kt), t, w, under=go, gi=gi)
    same_x(ck, B, lab + "the next constraint is at the state reached", L.end.get(kx), x, w, under=go, gi=gi)
    ck.same_t(lab + "the next constraint has the sensitivity reached", L.end.get(kS), S, w, under=go, gi=gi)
    h = R.end[kt] - t
    c = and_(go, R.cond)
    # at the start of the integration the time is that of the last constraint
    ck.same(lab + "the integration goes on until the next instant", and_(go, not_(R.cond), gt(nxt - t, 0)), FALSE, w, gi=gi)
    inv_ = and_(c, ge(nxt - ht, 0), ge(ht, 0), ge(t - ht, 0))
    ck.same(lab + "no step passes the next instant", and_(inv_, gt(t + h - nxt, 0)), FALSE, w, gi=gi)
    ck.same(lab + "no step is longer than the maximal one", and_(inv_, gt(h - B.dt, 0)), FALSE, w, gi=gi)
    ck.same(lab + "every step advances the time", and_(inv_, not_(gt(h, 0))), FALSE, w, gi=gi)
    same_x(ck, B, lab + "a step of the state", R.end.get(kx), B.plus(x, tscale(h, B.flow(t, x))), w, gi=gi)
    x1 = B.plus(x, tscale(h, B.flow(t, x)))
    one_of(ck, lab + "a step of the sensitivity", R.end.get(kS),
           [tadd(S, tscale(h, tmul(B.lin(tt, xx), S))) for tt, xx in ((t, x), (t + h, x1), (t, x1))], w, gi=gi)


def mulp(a, b):
    return a * b


def fns(p, name, pick=lambda f: True):
    fs = [f for f in p.funcs.values() if f["name"] == name and f.get("body") and pick(f)]
    if not fs:
        raise AnchorMissing(name)
    return fs


def run(pid, tier, seed):
    evalt.LOOP_FREE = True
    ck = Check(pid, tier, seed)
    p = program()
    if pid == "A04":
        filter_(ck, p)
        return ck
    if pid == "A03":
        for f in fns(p, "asif_to_qp_allocate"):
            I = start(p)
            B = Pb(I, "Grp" in p.types[f["targs"][0]["t"]]["s"] if f.get("targs") else "asif_to_qp_allocate<vf::Grp" in f["full"])
            I.st.roots["qp"] = I.symbolic(p.types[f["ps"][0]["t"]], "old")
            nh = sym("nh", True)
            tm.SIZE_SYMS.add("nh")
            I.st.roots.update(K=B.K, nb=B.nb, nh=nh)
            w = p.loc(f)
            I.run(f, argvals=[LV("qp"), LV("K"), LV("nb"), LV("nh")])
            q = I.st.roots["qp"].fields
            m = B.K * nh + B.nb + 1
            lab = "allocation, %s: " % B.lab
            for a, r, c in (("A", m, B.N), ("l", m, ONE), ("u", m, ONE), ("P", B.N, B.N), ("q", B.N, ONE)):
                ck.same_t(lab + "%s is a zero matrix of the right size" % a, q.get(a), tconst(r, c, 0), w)
    seen = set()
    for f in fns(p, "asif_to_qp_update"):
        ps = [p.types[x["t"]] for x in f["ps"]]
        xg = "ASIFProblem<vf::Grp" in ps[1]["s"]
        if xg in seen:
            continue
        seen.add(xg)
        I = start(p)
        B = Pb(I, xg)
        I.st.roots.update(qp=B.qp(I, ps[0]), pbm=B.pbm(I, ps[1]), prm=B.prm(I, ps[2]), f=UserFn("f"), h=UserFn("h"), bu=UserFn("bu"))
        I.run(f, argvals=[LV(a) for a in ("qp", "pbm", "prm", "f", "h", "bu")])
        judge(ck, B, "%s: " % B.lab, I, I.st.roots["qp"], p.loc(f), pid)
    for f in fns(p, "asif_to_qp"):
        ps = [p.types[x["t"]] for x in f["ps"]]
        I = start(p)
        B = Pb(I, "ASIFProblem<vf::Grp" in ps[0]["s"])
        I.st.roots.update(pbm=B.pbm(I, ps[0]), prm=B.prm(I, ps[1]), f=UserFn("f"), h=UserFn("h"), bu=UserFn("bu"))
        r = smooth.V(I, I.run(f, argvals=[LV(a) for a in ("pbm", "prm", "f", "h", "bu")]))
        lab = "asif_to_qp, %s: " % B.lab
        w = p.loc(f)
        judge(ck, B, lab, I, r, w, pid)
        if pid == "A01":
            ck.rule(lab + "derivatives are taken with the requested method", getattr(I, "dr_types", set()) <= {NUM}, w,
                    "diff::dr is called with the methods %s" % sorted(getattr(I, "dr_types", set())))
    return ck


def filter_(ck, p):
    cl = []
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("feedback::ASIFilter") and "ref" not in t and t.get("rec") in p.records and t["rec"] not in [c["rec"] for c in cl]:
            cl.append(t)
    if len(cl) < 2:
        raise AnchorMissing("class ASIFilter")
    for t in cl:
        xg = "ASIFilter<vf::Grp" in t["s"]
        ft = {f["name"]: p.types[f["t"]] for f in p.records[t["rec"]]["fields"]}
        # the members by their types
        role = {}
        for n, ty in ft.items():
            q = ty.get("qn", "")
            role["qp" if q.endswith("QuadraticProgram") else "prm" if q.endswith("ASIFilterParams") else "warm" if q == "std::optional" else
                 "f" if q == "vf::Dyn" else "?" + n] = n
        if not {"prm", "warm", "f"} <= set(role):
            raise AnchorMissing("members of ASIFilter")
        B = Pb(None, xg)
        lab = B.lab + ": "
        # ---- construction
        for ctor in [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == "ASIFilter" and f.get("body") and len(f["ps"]) == 2]:
            I = start(p)
            w = p.loc(ctor)
            I.st.roots["f"] = I.symbolic(p.types[ctor["ps"][0]["t"]], "f0")
            I.st.roots["prm"] = prm = fparams(I, B, ft[role["prm"]])
            b = I.construct(ctor, t, [], {"k": "Ctor", "t": p.types.index(t), "a": []}, argvals=[LV("f"), LV("prm")])
            kind = "rvalue constructor" if p.types[ctor["ps"][0]["t"]].get("ref") == "rvalue" or "&&" in p.types[ctor["ps"][0]["t"]]["s"] else "constructor"
            l2 = lab + kind + ": "
            if I.unsupported:
                ck.undecided(l2 + "constructs not understood", w, str(I.unsupported[:3]))
            ck.same(l2 + "no warm start at first", b.fields[role["warm"]].has, FALSE, w)
            leaves(ck, l2 + "the parameters are the given ones", b.fields[role["prm"]], prm, w)
            if "qp" in role:
                nh = prm.fields["nh"]
                m = B.K * nh + B.nb + 1
                for a, r, c in (("A", m, B.N), ("l", m, ONE), ("u", m, ONE), ("P", B.N, B.N), ("q", B.N, ONE)):
                    ck.same_t(l2 + "%s is a zero matrix of the right size" % a, b.fields[role["qp"]].fields.get(a), tconst(r, c, 0), w)
        # ---- a call
        for f in [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == "operator()" and f.get("body")]:
            w = p.loc(f)
            I = start(p)
            o = I.symbolic(t, "asif")
            o.fields[role["prm"]] = prm = fparams(I, B, ft[role["prm"]])
            prm.fields["nh"] = P(B.nh)
            if "qp" in role:
                o.fields[role["qp"]] = B.qp(I, ft[role["qp"]])
            st = {}

            def solve(I2, e, oo, a):
                st["qp"] = smooth.V(I2, a[0])
                st["prm"] = smooth.V(I2, a[1])
                st["warm"] = smooth.V(I2, a[2]) if len(a) > 2 else None
                ty = I2.prog.ty(e)
                v = I2.symbolic(ty, "sol")
                v.fields["primal"] = T.base("sol.primal", B.N, 1)
                v.fields["dual"] = T.base("sol.dual", B.m, 1)
                st["sol"] = v
                st["n"] = st.get("n", 0) + 1
                return v
            I.models["smooth::feedback::solve_qp"] = solve
            I.st.roots.update(o=o, g=B.x0, u=B.u, h=UserFn("h"), bu=UserFn("bu"))
            r = smooth.V(I, I.run(f, this=LV("o"), argvals=[LV(a) for a in ("g", "u", "h", "bu")]))
            if st.get("n") != 1 or not isinstance(st["warm"], Opt):
                ck.undecided(lab + "the problem is solved once", w, "solve_qp is called %s times" % st.get("n"))
                continue
            for pid in ("A01", "A02", "A03"):
                judge(ck, B, lab + "filter: ", I, st["qp"], w, pid)
            ck.rule(lab + "derivatives are taken with the requested method", getattr(I, "dr_types", set()) <= {NUM}, w,
                    "diff::dr is called with the methods %s" % sorted(getattr(I, "dr_types", set())))
            leaves(ck, lab + "the solver gets the filter's parameters", st["prm"], prm.fields["qp"], w)
            old = o.fields[role["warm"]]
            ck.same(lab + "the warm start is used if there is one", st["warm"].has, old.has, w)
            leaves(ck, lab + "the warm start is the stored solution", st["warm"].val, old.val, w, under=old.has)
            sol = st["sol"]
            items = [smooth.V(I, x) for x in getattr(r, "items", [])]
            if len(items) != 2:
                ck.undecided(lab + "the returned pair", w, repr(r))
                continue
            head = T(P(B.nu), ONE, lambda i, j: el("sol.primal", i))
            got = items[0]
            if xg:
                ck.same_t(lab + "the returned input is the desired one moved by the solution", got, tadd(B.u, head), w)
            else:
                ck.same(lab + "the returned input is the desired one moved by the solution", got, fn("rplus", B.u, lam(head)), w)
            ck.same(lab + "the returned code is the solver's", items[1], sol.fields["code"], w)
            new = I.st.roots["o"].fields[role["warm"]]
            opt = eq(sol.fields["code"], P(enum(p, "QPSolutionStatus", "Optimal")))
            ck.same(lab + "a solution is stored when it is optimal, else the old one is kept", new.has, or_(opt, old.has), w)
            leaves(ck, lab + "the stored solution is the new one", new.val, sol, w, under=opt)
            leaves(ck, lab + "the stored solution is kept otherwise", new.val, old.val, w, under=and_(not_(opt), old.has))


def enum(p, name, v):
    for t in p.types:
        if t.get("k") == "enum" and t.get("qn", t.get("s", "")).split("::")[-1] == name:
            for k, x in (t.get("vals") or t.get("enum") or {}).items() if isinstance(t.get("vals") or t.get("enum"), dict) else (t.get("vals") or t.get("enum") or []):
                if k == v:
                    return x
    return {"Optimal": 0}[v]


def fparams(I, B, ty):
    v = I.symbolic(ty, "fprm")
    ft = {f["name"]: I.prog.types[f["t"]] for f in I.prog.records[ty["rec"]]["fields"]}
    v.fields.update(T=B.T, u_weight=B.W, ulim=B.ulim(I, ft["ulim"]), asif=B.prm(I, ft["asif"]))
    tm.SIZE_SYMS.add("fprm.nh")
    return v


def leaves(ck, name, got, want, w, under=TRUE):
    """every member of a structure agrees"""
    if hasattr(want, "fields"):
        if not hasattr(got, "fields"):
            return ck.undecided(name, w, repr(got))
        for k in want.fields:
            leaves(ck, "%s [%s]" % (name, k), got.fields.get(k), want.fields[k], w, under)
    elif isinstance(want, Opt):
        ck.same(name, got.has, want.has, w, under=under)
        leaves(ck, name, got.val, want.val, w, and_(under, want.has))
    elif isinstance(want, T):
        if not isinstance(got, T):
            return ck.undecided(name, w, repr(got))
        ck.same(name + " [rows]", got.rows, want.rows, w, under=under)
        ck.same(name + " [cols]", got.cols, want.cols, w, under=under)
        ck.same_t(name, T(want.rows, want.cols, got.at), want, w, under=under)
    elif isinstance(want, (Poly, Bool)):
        ck.same(name, got, want, w, under=under)
    elif val_equal(got, want):
        ck.holds(name, w, "normal form")
    else:
        ck.undecided(name, w, "%r" % (got,))
