"""Obligations on the extended Kalman filter (properties E01..E03): the dynamics, the measurement and the group are unknown"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp
from sa.interp import names_of_any
from sa import smooth

_p = {}


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("ekf", incs=("stub",)))
    return _p["p"]


def start(p):
    I = Interp(p, models=dict(smooth.MODELS, **{"vf::Dyn::operator()": smooth.user("f"), "vf::Meas::operator()": smooth.user("h"),
                                               "vf::MeasG::operator()": smooth.user("h")}))
    I.ext = {"vf::Grp"}
    I.strict = True
    I.dims = {}
    return I


def classes(p):
    out = []
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("feedback::EKF") and "ref" not in t and t.get("rec") in p.records:
            if not any(t["rec"] == x["rec"] for x in out):
                out.append(t)
    if len(out) < 2:
        raise AnchorMissing("class EKF")
    return out


def methods(p, t, name):
    fs = [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == name and f.get("body")]
    if not fs:
        raise AnchorMissing("EKF::" + name)
    return fs


class Filter:
    """a filter in an arbitrary state with estimate g and symmetric covariance P"""
    def __init__(self, ck, p, t):
        self.p, self.t = p, t
        self.grp = "Grp" in t["s"]
        self.lab = ("Lie group" if self.grp else "vectors") + ": "
        self.n = 3 if self.grp else 2
        I = self.I = start(p)
        I.st.roots["o"] = self.o = I.symbolic(t, "ekf")
        self.fg = self.member(ck, "estimate")
        self.fP = self.member(ck, "covariance")
        self.g, self.P = self.o.fields[self.fg], self.o.fields[self.fP]
        tm.SYM_TENSORS.add(self.P.name)

    def member(self, ck, name):
        f = methods(self.p, self.t, name)[0]
        J = start(self.p)
        J.st.roots["o"] = self.o
        r = J.run(f, this=LV("o"))
        r = smooth.V(J, r)
        hit = [k for k, v in self.o.fields.items() if val_equal(v, r)]
        if len(hit) != 1:
            raise AnchorMissing("the member returned by EKF::%s" % name)
        self.acc = getattr(self, "acc", {})
        self.acc[name] = self.p.loc(f)
        return hit[0]


def upper(t):
    return T(t.rows, t.cols, lambda i, j: ite(ge(j - i, 0), t.at(i, j), t.at(j, i)))


def rhs(F, I, g, P_, Q, t):
    """derivatives of estimate and covariance at time t"""
    n = F.n
    gf = [g] if F.grp else [lam(g)]
    fv = tfn("f", n, 1, [t] + gf)
    ph = sym("ph1.0") if F.grp else T.base("ph1.0", n, 1)
    fp = tfn("f", n, 1, [t] + ([ph] if F.grp else [lam(ph)]))
    D = T(n, n, lambda i, j: fn("D", fp.at(i), j, *gf))
    A = tsub(D, tfn("ad", n, n, (lam(fv),))) if F.grp else D
    M = tadd(tadd(tmul(A, P_), tmul(P_, ttrans(A))), Q)
    return fv, M


def symm(x, name, to):
    """the tensor `name` is symmetric"""
    s = TSub()
    s.tens[name] = lambda i, j: el(to, i, j)
    tm.SYM_TENSORS.add(to)
    if isinstance(x, T):
        return T(x.rows, x.cols, lambda i, j: subst(x.at(i, j), s))
    return subst(x, s)


def plus(F, g, d):
    return fn("rplus", g, lam(d)) if F.grp else tadd(g, d)


def same_g(ck, F, name, got, want, w, **kw):
    if F.grp:
        ck.same(name, got, want, w, **kw)
    else:
        ck.same_t(name, got, want, w, **kw)


def predict(ck, F, steps):
    p = F.p
    f = methods(p, F.t, "predict")[0]
    w = p.loc(f)
    I = F.I
    n = F.n
    I.st.roots.update(Q=T.base("Q", n, n), tau=sym("tau"), dt=Opt(bsym("dt.has"), sym("dt")))
    I.st.roots["f"] = UserFn("f")
    I.run(f, this=LV("o"), argvals=[LV("f"), LV("Q"), LV("tau"), LV("dt")])
    Q, tau = T.base("Q", n, n), sym("tau")
    ck.analysed[F.lab + "constructs not understood"] = len(I.unsupported)
    lab = F.lab
    L = [r for r in I.loops if r.fn == f["full"]]
    ev = [e for e in I.events if e[0] == "step"]
    if len(L) != 1 or I.unsupported or L[0].breaks or getattr(L[0], "closed", False):
        return ck.undecided(lab + "the structure of predict()", w, "%d loops, %s" % (len(L), I.unsupported[:3]))
    L = L[0]
    wl = p.loc(L.node)
    hd = {}
    for k, h in L.heads.items():
        if k[0] == "o" and k[-1] == F.fg:
            hd["g"] = (k, h)
        elif k[0] == "o" and k[-1] == F.fP:
            hd["P"] = (k, h)
        else:
            hd.setdefault("t", []).append((k, h)) if not isinstance(L.end.get(k), T) else None
    ts = hd.get("t") or []
    # the time: the variable the steps are taken at
    inl = [e for e in L.events if e[0] == "step"]
    aft = [e for e in ev if e not in inl]
    if "g" not in hd or "P" not in hd or len(inl) < 1:
        return ck.undecided(lab + "the structure of predict()", wl, "steps in the loop: %d, after it: %d" % (len(inl), len(aft)))
    tk = [(k, h) for k, h in ts if isinstance(h, Poly) and inl[0][2] == h] or [(k, h) for k, h in ts if isinstance(h, Poly)]
    if len(tk) != 1:
        # steps at another time than a variable of the loop
        return ck.undecided(lab + "the structure of predict()", wl, "the time of a step is %s" % show(inl[0][2]))
    kt, ht = tk[0]
    h = inl[0][3]
    kg, hg = hd["g"]
    kP, hP = hd["P"]
    Pn = hP.name
    SP = T.base("P^s", n, n)
    fix = lambda x: symm(x, Pn, "P^s")
    if steps:
        # ------------------------------------------------ times (E02)
        ck.same(lab + "the first step starts at time 0", L.init[kt], ZERO, wl)
        ck.same(lab + "the time advances by the step length", L.end[kt] - ht, h, wl)
        ck.same(lab + "the estimate starts the loop as it was", *( (L.init[kg], F.g) if F.grp else (tsum(tsub(L.init[kg], F.g)), ZERO)), wl)
        for e in inl:
            ck.same(lab + "both steps of an iteration start at the same time", e[2], ht, e[5])
            ck.same(lab + "both steps of an iteration have the same length", e[3], h, e[5])
        for e in aft:
            ck.same(lab + "the last step starts where the loop ended", e[2], ht, e[5])
            ck.same(lab + "the last step ends at tau", e[2] + e[3], tau, e[5])
        has = bsym("dt.has")
        z = {list(atoms_of(ht))[0]: ZERO}
        c1 = and_(has, L.cond)
        if aft:
            ck.same(lab + "steps in the loop have the requested length", h, sym("dt"), inl[0][5], under=c1)
            ck.same(lab + "the last step is not longer than dt", and_(has, not_(L.cond), not_(ge(sym("dt") - aft[0][3], 0))), FALSE, aft[0][5])
            ck.same(lab + "without dt there is one step", and_(not_(has), subst_b(L.cond, z), gt(tau, 0)), FALSE, wl)
        else:
            ck.same(lab + "steps are not longer than dt", and_(c1, not_(ge(sym("dt") - h, 0))), FALSE, wl)
            ck.same(lab + "steps are as long as dt or end at tau", and_(c1, ne(h, sym("dt")), ne(ht + h, tau)), FALSE, wl)
            ck.same(lab + "the loop goes on until tau", and_(not_(L.cond), gt(tau - ht, 0)), FALSE, wl)
            ck.same(lab + "without dt there is one step", and_(not_(has), subst_b(L.cond, z), gt(tau, 0), ne(subst(h, z), tau)), FALSE, wl)
        # a step of the loop does not pass tau
        ck.same(lab + "no step passes tau", and_(c1, not_(ge(tau - ht - h, 0))), FALSE, wl)
        n2 = [e for e in inl if "." + F.fP in e[1]], [e for e in inl if "." + F.fg in e[1]]
        ck.rule(lab + "every iteration steps the estimate once and the covariance once",
                len(inl) == 2 and len(n2[0]) == 1 and len(n2[1]) == 1 and all(e[4].is_true() for e in inl), wl,
                "steps of an iteration: %s" % [e[1] for e in inl])
        n2 = [e for e in aft if "." + F.fP in e[1]], [e for e in aft if "." + F.fg in e[1]]
        ck.rule(lab + "the last step steps the estimate once and the covariance once",
                not aft or len(aft) == 2 and len(n2[0]) == 1 and len(n2[1]) == 1, w, "last steps: %s" % [e[1] for e in aft])
        return
    # ------------------------------------------------ what a step does (E01)
    fv, M = rhs(F, I, hg, SP, Q, ht)
    ck.same_t(lab + "covariance after a step of the loop", fix(L.end[kP]), tadd(SP, tscale(h, upper(M))), wl)
    same_g(ck, F, lab + "estimate after a step of the loop", L.end.get(kg), plus(F, hg, tscale(h, fv)), wl)
    a = I.st.roots["o"]
    h2 = aft[0][3] if aft else ZERO
    ck.same_t(lab + "covariance after the last step", fix(a.fields[F.fP]), tadd(SP, tscale(h2, upper(M))), w)
    same_g(ck, F, lab + "estimate after the last step", a.fields[F.fg], plus(F, hg, tscale(h2, fv)) if aft else hg, w)
    for nm, x in (("a step of the loop", L.end[kP]), ("the last step", a.fields[F.fP])):
        x = fix(x)
        ck.same_t(lab + "the covariance stays symmetric in " + nm, x, ttrans(x), w, under=lambda i, j: gt(i - j, 0))
    ck.same_t(lab + "the covariance starts the loop as it was", L.init[kP], F.P, wl)


def update(ck, F):
    p = F.p
    for f in methods(p, F.t, "update"):
        w = p.loc(f)
        J = start(p)
        J.st.roots["o"] = F.o
        ps = f["ps"]
        yt, Rt = p.types[ps[1]["t"]], p.types[ps[2]["t"]]
        yg = yt.get("qn") == "vf::Grp"
        ny = 3 if yg else yt.get("rows")
        lab = F.lab + ("measurement on a group: " if yg else "measurement: ")
        y = sym("y") if yg else T.base("y", ny, 1)
        R = T.base("R", ny, ny)
        J.st.roots.update(y=y, R=R, h=UserFn("h"))
        J.run(f, this=LV("o"), argvals=[LV("h"), LV("y"), LV("R")])
        n = F.n
        if J.unsupported:
            ck.undecided(lab + "constructs not understood", w, str(J.unsupported[:3]))
        g, P_ = F.g, F.P
        gf = [g] if F.grp else [lam(g)]
        ph = sym("ph1.0") if F.grp else T.base("ph1.0", n, 1)
        pf = [ph] if F.grp else [lam(ph)]
        if yg:
            hv = fn("h", *gf)
            H = T(ny, n, lambda i, j: fn("D", fn("h", *pf), i, j, *gf))
            res = tfn("rminus", ny, 1, (y, hv))
        else:
            hv = tfn("h", ny, 1, gf)
            hp = tfn("h", ny, 1, pf)
            H = T(ny, n, lambda i, j: fn("D", hp.at(i), j, *gf))
            res = tsub(y, hv)
        S = upper(tadd(tmul(tmul(H, P_), ttrans(H)), R))
        # the gain is the transpose of the solution of S X = H P
        HP = tmul(H, P_)
        evalt.SOLVE.clear()
        spec = "GAIN"
        for nm, (key, rhs_) in J.solve_info.items():
            m, tri = [x for x in J.mats if x[0] is J.mat_of(key)][0]
            # the part of the matrix the factorization reads
            low = tri == 1
            mm = T(m.rows, m.cols, lambda i, j, m=m, low=low: ite(ge((i - j) if low else (j - i), 0), m.at(i, j), m.at(j, i)))
            evalt.SOLVE[nm] = (mm, rhs_)
            tst = Check(ck.pid, ck.tier, ck.seed)
            if (mm.rows, mm.cols, rhs_.rows, rhs_.cols) == (P(ny), P(ny), P(ny), P(n)) and \
                    tst.same_t("", mm, S, w, tries=5) and tst.same_t("", rhs_, HP, w, tries=5):
                spec = nm
        evalt.SOLVE[spec] = (S, HP)
        tm.SYM_DEPS[spec] = frozenset(names_of_any(S) | names_of_any(HP))
        sol = T.base(spec, ny, n)
        K = ttrans(sol)
        a = J.st.roots["o"]
        same_g(ck, F, lab + "the estimate moves by the gain times the innovation", a.fields[F.fg], plus(F, g, tmul(K, res)), w)
        KH = tmul(tsub(tident(n, n), tmul(K, H)), P_)
        ck.same_t(lab + "the covariance shrinks by the gain", a.fields[F.fP], upper(KH), w)
        ck.same_t(lab + "the covariance stays symmetric", a.fields[F.fP], ttrans(a.fields[F.fP]), w, under=lambda i, j: gt(i - j, 0))
        for k, v in F.o.fields.items():
            if k not in (F.fg, F.fP) and not val_equal(a.fields.get(k), v):
                ck.undecided(lab + "leaves %s alone" % k, w, "%r" % (a.fields.get(k),))
        evalt.SOLVE.clear()
    # reset and the initial state
    f = methods(p, F.t, "reset")[0]
    w = p.loc(f)
    J = start(p)
    J.st.roots["o"] = F.o
    J.st.roots["g"] = g0 = sym("g0") if F.grp else T.base("g0", F.n, 1)
    J.st.roots["P"] = P0 = T.base("P0", F.n, F.n)
    J.run(f, this=LV("o"), argvals=[LV("g"), LV("P")])
    a = J.st.roots["o"]
    same_g(ck, F, F.lab + "reset() sets the estimate", a.fields[F.fg], g0, w)
    ck.same_t(F.lab + "reset() sets the covariance", a.fields[F.fP], P0, w)
    for nm in ("estimate", "covariance"):
        ck.rule(F.lab + "%s() returns what reset(), predict() and update() change" % nm, True, F.acc[nm])
    J = start(p)
    d = J.default(F.t, "new")
    ck.same_t(F.lab + "the initial covariance is the identity", d.fields[F.fP], tident(F.n, F.n), w)


def run(pid, tier, seed):
    evalt.LOOP_FREE = True
    ck = Check(pid, tier, seed)
    p = program()
    for t in classes(p):
        F = Filter(ck, p, t)
        if pid == "E03":
            update(ck, F)
        else:
            predict(ck, F, pid == "E02")
    ck.analysed["classes"] = len(classes(p))
    return ck
