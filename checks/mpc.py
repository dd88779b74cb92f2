"""Obligations on model-predictive control (properties M01..M03): dynamics, constraints, weights and trajectories are unknown"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp, RefV, Seq, VecV, Undef
from sa import smooth
from .colloc import N, NI, Ki, tau, Mesh_MODEL

_p = {}
V = smooth.V
NS = "smooth::feedback::"
FORMS = (("MPC<double, vf::Grp", "vf::Dyn,", True, False), ("MPC<double, Eigen", "vf::Dyn,", False, False), ("MPC<double, vf::Grp", "vf::DynT,", True, True))


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("mpc", incs=("stub",)))
    return _p["p"]


def timed(name):
    """unknown function; one which is told the time depends on the time it was told last"""
    def h(I, e, o, a):
        a = list(a)
        if o is None and e.get("op") == "()":
            o, a = a[0], a[1:]
        v = V(I, o)
        xs = [V(I, x) for x in a]
        xs = [I.tens(x) if isinstance(x, Undef) else x for x in xs]
        if isinstance(v, Rec) and "time" in v.fields:
            xs = [v.fields["time"]] + xs
        return smooth.result(I, e, name, xs)
    return h


def set_time(I, e, o, a):
    lv = I.lv(o)
    LV(lv.root, lv.path + ("time",)).set(I, I.scalar(V(I, a[0])))
    return Opq("void")


def expinv(I, e, o, a):
    v = V(I, a[1])
    i0 = I.scalar(V(I, a[2])) if len(a) > 2 else ZERO
    lv = I.lv(a[0])
    old = lv.get(I)
    n = v.rows
    J = tfn("dr_expinv", n, n, (lam(v),))
    if not isinstance(old, T) or i0 != ZERO:
        return NotImplemented
    lv.set(I, T(old.rows, old.cols, J.at, old.meta))
    return Opq("void")


def snap(I, v):
    while isinstance(v, (LV, RefV)):
        v = v.lv.get(I) if isinstance(v, RefV) else v.get(I)
    return v


def where_of(I, x):
    lv = I.lv(x)
    while isinstance(lv.get(I), RefV):
        lv = lv.get(I).lv
    return lv


def update(parts):
    """an update of the quadratic program: what it is called with, at the time of the call"""
    def h(I, e, o, a):
        qp, work, ocp, mesh, tf, xl, ul = a[:7]
        I.mpc.append({"k": "update", "parts": parts, "pc": I.st.pc, "where": I.prog.loc(e), "qp": where_of(I, qp).path, "ocp": snap(I, where_of(I, ocp)),
                      "mesh": where_of(I, mesh).path, "tf": I.scalar(V(I, tf)), "xl": snap(I, where_of(I, xl)), "ul": snap(I, where_of(I, ul)),
                      "dt": [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, int)], "xlr": where_of(I, xl).root, "ulr": where_of(I, ul).root})
        return Opq("void")
    return h


def solve(I, e, o, a):
    w = snap(I, where_of(I, a[1])) if len(a) > 1 else None
    I.mpc.append({"k": "solve", "pc": I.st.pc, "where": I.prog.loc(e), "qp": where_of(I, a[0]).path, "warm": w, "n": len(I.mpc)})
    ty = I.prog.ty(e)
    if ty.get("k") == "ref" or "ref" in ty:
        t2 = I.prog.types[ty["ref"]] if isinstance(ty.get("ref"), int) else ty
    else:
        t2 = ty
    v = I.symbolic(t2, "sol")
    I.st.roots["sol"] = v
    return LV("sol")


def analyze(I, e, o, a):
    I.mpc.append({"k": "analyze", "pc": I.st.pc, "where": I.prog.loc(e), "qp": where_of(I, a[0]).path})
    return Opq("void")


MODEL = {"vf::Dyn::operator()": timed("f"), "vf::Run::operator()": timed("cr"), "vf::DynT::set_time": set_time, "vf::RunT::set_time": set_time,
         "smooth::dr_expinv_sparse": expinv,
         # the functions are evaluated at the linearization point, as documented
         "vf::Grp::isApprox": lambda I, e, o, a: TRUE, "Eigen::DenseBase::isApprox": lambda I, e, o, a: TRUE,
         NS + "QPSolver::solve": solve, NS + "QPSolver::analyze": analyze,
         NS + "detail::ocp_to_qp_allocate": lambda I, e, o, a: (I.mpc.append({"k": "allocate", "pc": I.st.pc, "where": I.prog.loc(e), "qp": where_of(I, a[0]).path}), Opq("void"))[1]}
for k, ps in (("_cost", ("cost",)), ("_dyn", ("dyn",)), ("_cr", ("cr",)), ("_ce", ("ce",)), ("", ("cost", "dyn", "cr", "ce"))):
    MODEL[NS + "detail::ocp_to_qp_update" + k] = update(ps)


class MInterp(Interp):
    def invoke(self, fv, argvals, node=None, fid=None, retty=None):
        v = snap(self, fv)
        name = {"vf::Dyn": "f", "vf::DynT": "f", "vf::Run": "cr", "vf::RunT": "cr"}.get(getattr(v, "ty", None) or "") if isinstance(v, Rec) else None
        if name is None:
            return Interp.invoke(self, fv, argvals, node, fid, retty)
        xs = [V(self, a) for a in argvals]
        xg = not isinstance(xs[0], T)
        fl = [self.flat(x) for x in ([v.fields["time"]] if "time" in v.fields else []) + xs]
        return tfn(name, {"f": 3 if xg else 2, "cr": 2 if xg else 3}[name], 1, [y for x in fl for y in x])


def start(p):
    I = MInterp(p, models=dict(smooth.MODELS, **Mesh_MODEL, **MODEL))
    I.ext = {"vf::Grp"}
    I.strict = True
    I.dims = {}
    I.mpc = []
    I.unroll = 4
    return I


def classes(p, name, want=2):
    out = []
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("::" + name) and "ref" not in t and t.get("rec") in p.records:
            if not any(t["rec"] == x["rec"] for x in out):
                out.append(t)
    if len(out) < want:
        raise AnchorMissing("class " + name)
    return out


def methods(p, t, name):
    fs = [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == name and f.get("body")]
    if not fs:
        raise AnchorMissing("%s::%s" % (t["qn"].split("::")[-1], name))
    return fs


def label(t):
    s = t["s"]
    a = s[s.index("<") + 1:]
    a = a[len("double, "):] if a.startswith("double, ") else a
    return ("Lie group" if a.startswith("vf::Grp") else "vectors") + (", dependent on time: " if "DynT" in s or "RunT" in s else ": ")


class Fun:
    """one of the functions of the optimal control problem, in any state"""
    def __init__(self, p, t):
        self.p, self.t, self.lab = p, t, t["qn"].split("::")[-1] + ", " + label(t)
        self.xg = "Lie" in self.lab
        self.nx, self.nu = (3, 2) if self.xg else (2, 3)
        kind = t["qn"].split("::")[-1]
        self.N_ = 1 + self.nx + self.nu if kind in ("MPCIntegrand", "MPCCR") else 2 + 2 * self.nx
        self.rows = self.nx if kind != "MPCCR" else 2 if self.xg else 3
        I = self.I = start(p)
        self.o = I.symbolic(t, "o")
        # matrices are made with their sizes and compressed
        for k, N_, M_ in (("hess", self.N_, self.N_), ("jac", self.rows, self.N_)):
            if k in self.o.fields and self.N_:
                old = self.o.fields[k]
                self.o.fields[k] = T.base(old.name, N_, M_, dict(old.meta or {}, comp=TRUE))
        I.st.roots["o"] = self.o
        self.timed = "time" in self.lab
        self.X = lambda n: sym(n) if self.xg else T.base(n, 2, 1)
        self.U = lambda n: T.base(n, 2, 1) if self.xg else sym(n)

    def call(self, name, **kw):
        I = self.I
        f = methods(self.p, self.t, name)[0]
        I.st.roots.update(kw)
        r = I.run(f, this=LV("o"), argvals=[LV(k) for k in kw])
        while isinstance(r, (LV, RefV)) or hasattr(r, "get") and not isinstance(r, (Rec, T)):
            r = r.lv if isinstance(r, RefV) else r.get(I)
        return r, self.p.loc(f)


def fl(v):
    return lam(v) if isinstance(v, T) else v


def plus(F, t0, t):
    return t0 + t


def quadratic(ck, t):
    """values and derivatives of the objective and of the integrand where they are evaluated: at the desired trajectory"""
    p = program()
    integrand = t["qn"].endswith("Integrand")
    F = Fun(p, t)
    n, m = F.nx, F.nu

    def call(name):
        F = Fun(p, t)
        kw = dict(t=sym("t"), x=F.X("x"), u=F.U("u")) if integrand else dict(t=sym("t"), x0=F.X("x0"), xf=F.X("xf"), q=tconst(1, 1, 1))
        r, w = F.call(name, **kw)
        ck.analysed[F.lab + name + ": constructs not understood"] = len(F.I.unsupported)
        return F, r, w
    N_ = 1 + n + m if integrand else 2 + 2 * n
    gi = {}
    F, r, w = call("jacobian")
    if not isinstance(r, T) or F.I.unsupported:
        ck.undecided(F.lab + "jacobian", w, repr(r)[:100] + repr(F.I.unsupported[:2]))
    else:
        for c in range(N_):
            ck.same(F.lab + "jacobian, column %d" % c, r.at(ZERO, P(c)), ONE if not integrand and c == 1 + 2 * n else ZERO, w)
    F, r, w = call("hessian")
    if not isinstance(r, T) or F.I.unsupported:
        return ck.undecided(F.lab + "hessian", w, repr(r)[:100] + repr(F.I.unsupported[:2]))
    blocks = [("Q", 1, n), ("R", 1 + n, m)] if integrand else [("Qtf", 1 + n, n)]
    done = []
    for k, b, s in blocks:
        W = F.o.fields[k]
        # weights are symmetric; only the upper triangle of the Hessian is used
        tm.SYM_TENSORS.add(W.name)
        for i in range(s):
            for j in range(s):
                done.append((b + i, b + j))
                if i > j:
                    continue
                # a weight of zero need not be written
                got, wt, nm = r.at(P(b + i), P(b + j)), W.at(P(i), P(j)), "%shessian: weight %s(%d, %d)" % (F.lab, k, i, j)
                z = TSub(tens={W.name: lambda *ix, i=i, j=j: ite(and_(eq(ix[0], i), eq(ix[1], j)), ZERO, el(W.name, *ix))})
                ck.same(nm, got, wt, w, under=ne(wt, ZERO))
                ck.same(nm + " of zero", subst(got, z), ZERO, w)
    for i in range(N_):
        for j in range(N_):
            if i <= j and (i, j) not in done:
                ck.same("%shessian: (%d, %d)" % (F.lab, i, j), r.at(P(i), P(j)), ZERO, w)


def linear(ck, t):
    """dynamics, running constraints and end constraints, and their derivatives"""
    p = program()
    kind = t["qn"].split("::")[-1]
    gi = {}

    def call(name):
        F = Fun(p, t)
        if kind == "MPCCE":
            kw = dict(t=sym("t"), x0=F.X("x0"), xf=F.X("xf"), q=tconst(1, 1, 1))
        else:
            kw = dict(t=sym("t"), x=F.X("x"), u=F.U("u"))
        r, w = F.call(name, **kw)
        ck.analysed[F.lab + name + ": constructs not understood"] = len(F.I.unsupported)
        return F, r, w
    F, r, w = call("operator()")
    n, m = F.nx, F.nu
    if kind == "MPCCE":
        x0, fix = F.X("x0"), F.o.fields["x0_fix"]
        want = tfn("rminus", n, 1, [x0, fix]) if F.xg else tsub(x0, fix)
        rows = n
    else:
        nm = "f" if kind == "MPCDyn" else "cr"
        rows = n if kind == "MPCDyn" else (2 if F.xg else 3)
        tm_ = [F.o.fields["t0"] + sym("t")] if F.timed else []
        val = lambda x, u: tfn(nm, rows, 1, tm_ + [fl(x), fl(u)])
        want = val(F.X("x"), F.U("u"))
    if not isinstance(r, T) or F.I.unsupported:
        ck.undecided(F.lab + "value", w, repr(r)[:100] + repr(F.I.unsupported[:2]))
    else:
        ck.same_t(F.lab + "value", r, want, w)
    F, r, w = call("jacobian")
    if not isinstance(r, T) or F.I.unsupported:
        return ck.undecided(F.lab + "jacobian", w, repr(r)[:100] + repr(F.I.unsupported[:2]))
    i = gidx("r", P(rows), gi)
    jac = F.o.fields.get("jac")
    if kind == "MPCCE":
        J = tfn("dr_expinv", n, n, (lam(want),))
        for c in range(n):
            ck.same(F.lab + "jacobian by x%d at the start" % c, r.at(i, P(1 + c)), J.at(i, P(c)) , w, gi=gi)
        for c in [0] + list(range(1 + n, 2 + 2 * n)):
            # nothing writes these columns: zero since the matrix was made
            ck.same(F.lab + "jacobian, column %d" % c, r.at(i, P(c)), jac.at(i, P(c)), w, gi=gi)
        return
    ph = lambda k, v: T.base("ph1.%d" % k, v.rows, v.cols) if isinstance(v, T) else sym("ph1.%d" % k)
    x, u = F.X("x"), F.U("u")
    ck.same(F.lab + "jacobian by time", r.at(i, ZERO), ZERO if kind == "MPCDyn" else jac.at(i, ZERO), w, gi=gi)
    for c in range(n):
        ck.same(F.lab + "jacobian by x%d" % c, r.at(i, P(1 + c)), fn("D", val(ph(0, x), u).at(i, ZERO), P(c), fl(x)), w, gi=gi)
    for c in range(m):
        ck.same(F.lab + "jacobian by u%d" % c, r.at(i, P(1 + n + c)), fn("D", val(x, ph(1, u)).at(i, ZERO), P(c), fl(u)), w, gi=gi)


class Ctrl:
    """a controller in any state"""
    def __init__(self, p, t):
        self.p, self.t, self.lab = p, t, "MPC, " + label(t)
        self.xg = "Lie" in self.lab
        self.timed = "time" in self.lab
        self.nx, self.nu = (3, 2) if self.xg else (2, 3)
        I = self.I = start(p)
        self.o = I.symbolic(t, "c")
        I.st.roots["o"] = self.o
        self.X = lambda n: sym(n) if self.xg else T.base(n, 2, 1)
        self.U = lambda n: T.base(n, 2, 1) if self.xg else sym(n)

    def run(self, name, pick=0, **kw):
        I = self.I
        f = [f for f in methods(self.p, self.t, name)][pick]
        I.st.roots.update(kw)
        r = I.run(f, this=LV("o"), argvals=[LV(k) for k in kw])
        return r, self.p.loc(f)

    def des(self, which, t):
        """the desired state or input at a time"""
        nm = "c.%sdes_.*.%sdes" % (which, which)
        n, g = (self.nx, self.xg) if which == "x" else (self.nu, not self.xg)
        return fn(nm, t) if g else tfn(nm, n, 1, [t])


WEIGHTS = (("Q", "g", "Q"), ("R", "g", "R"), ("Qtf", "theta", "Qtf"))
ALL = ("dyn", "cr", "ce")


def eqv(ck, name, got, want, w):
    if isinstance(want, T):
        return ck.same_t(name, got, want, w)
    return ck.same(name, got, want, w)


def same_fun(a, name):
    return isinstance(a, UserFn) and a.name == name


def the_solve(ck, C, lab, w):
    s = [m for m in C.I.mpc if m["k"] == "solve"]
    if C.I.unsupported:
        ck.undecided(lab + "constructs not understood", w, str(C.I.unsupported[:3]))
        return None
    ck.rule(lab + "one quadratic program is solved", len(s) == 1 and s[0]["pc"].is_true(), w, "calls of solve: %s" % [(m["where"], str(m["pc"])) for m in s])
    return s[0] if len(s) == 1 else None


def before(C, s, k):
    ev = C.I.mpc[:C.I.mpc.index(s)]
    return [m for m in ev if m["k"] == k]


def part(ck, C, lab, s, ps):
    """the last update of a part of the program before it is solved"""
    ups = [m for m in before(C, s, "update") if ps in m["parts"]]
    name = lab + "the %s part is updated before the program is solved" % ps
    if not ups:
        ck.violated(name, s["where"], "there is no such update on any path to this call")
    else:
        ck.same(name, or_(*[m["pc"] for m in ups]), s["pc"], s["where"])
    return ups


def trajectories(ck, C, lab, m, t):
    """an update uses this controller's program, mesh, horizon and desired trajectories, counted from time t"""
    lab = lab + "update of %s: " % "/".join(m["parts"])
    w = m["where"]
    ck.rule(lab + "program", m["qp"] == ("qp_",), w, str(m["qp"]))
    ck.rule(lab + "mesh", m["mesh"] == ("mesh_",), w, str(m["mesh"]))
    ck.same(lab + "horizon", m["tf"], sym("c.prm_.tf"), w)
    for nm, k in (("state", "x"), ("input", "u")):
        v = m[k + "l"]
        ck.rule(lab + "desired %s" % nm, m[k + "lr"] == "&c.%sdes_" % k and isinstance(v, Rec) and same_fun(v.fields.get(k + "des"), "c.%sdes_.*.%sdes" % (k, k)), w, repr(v)[:150])
        if isinstance(v, Rec) and "t0" in v.fields:
            ck.same(lab + "start of the desired %s" % nm, C.I.scalar(v.fields["t0"]), t, w)


def call(C, traj=False):
    f = methods(C.p, C.t, "operator()")[0]
    I = C.I
    kw = dict(t=sym("t"), x=C.X("x"))
    if traj:
        for k, q in (("us", f["ps"][2]), ("xs", f["ps"][3])):
            ty = C.p.types[q["t"]]
            rw = C.p.types[ty["ta"][0]["t"]]
            vt = C.p.types[rw["ta"][0]["t"]]
            I.st.roots[k] = I.symbolic(vt, k)
        kw.update(ut=Opt(TRUE, RefV(LV("us"))), xt=Opt(TRUE, RefV(LV("xs"))))
    else:
        kw.update(ut=Opt(FALSE, Undef()), xt=Opt(FALSE, Undef()))
    return C.run("operator()", **kw)


def at_solve(ck, t_):
    """the program that is solved is that of the current time, state and desired trajectories"""
    C = Ctrl(program(), t_)
    lab = C.lab
    r, w = call(C)
    s = the_solve(ck, C, lab, w)
    if s is None:
        return
    t, tf = sym("t"), sym("c.prm_.tf")
    ck.rule(lab + "the program that is solved", s["qp"] == ("qp_",), s["where"], str(s["qp"]))
    for ps in ALL:
        for m in part(ck, C, lab, s, ps)[-1:]:
            trajectories(ck, C, lab, m, t)
            o, wm = m["ocp"], m["where"]
            if not isinstance(o, Rec):
                ck.undecided(lab + "problem", wm, repr(o)[:100])
            elif ps == "dyn":
                ck.same(lab + "start of the dynamics", C.I.scalar(o.fields["f"].fields["t0"]), t, wm)
            elif ps == "cr":
                ck.same(lab + "start of the running constraints", C.I.scalar(o.fields["cr"].fields["t0"]), t, wm)
            else:
                eqv(ck, lab + "fixed initial state", V(C.I, o.fields["ce"].fields["x0_fix"]), C.X("x"), wm)
    for m in before(C, s, "update"):
        if "cost" in m["parts"]:
            trajectories(ck, C, lab, m, t)
            eqv(ck, lab + "desired final state", V(C.I, m["ocp"].fields["theta"].fields["xf_des"]), C.des("x", t + tf), m["where"])
            ck.rule(lab + "the objective is differentiated by its own derivatives", m["dt"][:1] in ([3], [4]), m["where"], str(m["dt"]))


def outputs(ck, t_):
    """what the controller returns and keeps"""
    C = Ctrl(program(), t_)
    lab, I = C.lab, C.I
    n, m = C.nx, C.nu
    ub = n * (N + 1)
    t, tf = sym("t"), sym("c.prm_.tf")
    r, w = call(C, True)
    s = the_solve(ck, C, lab, w)
    if s is None:
        return
    z = lambda b, k: T(P(k), ONE, lambda i, j: el("sol.primal", b + i))

    def moved(base, d):
        return tadd(base, d) if isinstance(base, T) else fn("rplus", base, lam(d))
    if not isinstance(r, Seq) or len(r.items) != 2:
        ck.undecided(lab + "result", w, repr(r)[:100])
    else:
        eqv(ck, lab + "input", V(I, r.items[0]), moved(C.des("u", t), z(ub, m)), w)
        ck.same(lab + "status", I.scalar(r.items[1]), sym("sol.code"), w)
    for k, which, first, d, size in (("us", "u", ub, m, N), ("xs", "x", ZERO, n, N + 1)):
        v = I.st.roots[k]
        if not isinstance(v, VecV):
            ck.undecided(lab + "trajectory " + which, w, repr(v)[:100])
            continue
        ck.same(lab + "length of trajectory " + which, v.size, size, w)
        gi = {}
        i = gidx("a", size, gi)
        got = V(I, v.f(i))
        if not isinstance(got, (T, Poly)):
            ck.undecided(lab + "trajectory " + which, w, repr(got)[:100])
            continue
        want = moved(C.des(which, t + tf * tau(i)), z(first + d * i, d))
        if isinstance(want, T):
            for c in range(d):
                ck.same(lab + "trajectory %s, component %d" % (which, c), got.at(P(c), ZERO), want.at(P(c), ZERO), w, gi=gi)
        else:
            ck.same(lab + "trajectory " + which, got, want, w, gi=gi)
    ws, w0 = s["warm"], C.o.fields["warmstart_"]
    a = I.st.roots["o"].fields["warmstart_"]
    ck.rule(lab + "the solver starts from what was kept", isinstance(ws, Opt) and str(ws.has) == str(w0.has) and repr(ws.val) == repr(w0.val), s["where"], repr(ws)[:100])
    if not isinstance(a, Opt) or not isinstance(a.val, Rec):
        return ck.undecided(lab + "what is kept", w, repr(a)[:100])
    use = bsym("c.prm_.warmstart")
    code = sym("sol.code")
    keep = and_(use, or_(*[eq(code, c) for c in codes(C.p)]))
    ck.same(lab + "a solution is kept", a.has, or_(keep, w0.has), w)
    i = gidx("v", n * (N + 1) + m * N, gi)
    for k in ("primal", "dual"):
        ck.same(lab + "kept solution: " + k, a.val.fields[k].at(i, ZERO), ite(keep, el("sol." + k, i), w0.val.fields[k].at(i, ZERO)), w, gi=gi, under=or_(keep, w0.has))


def codes(p):
    """Optimal, MaxIterations, MaxTime"""
    return [P(0), P(4), P(5)]


def weights(ck, t_):
    """new weights take effect in the next call"""
    p = program()
    C = Ctrl(p, t_)
    lab, I = C.lab, C.I
    f = methods(p, t_, "set_weights")[0]
    wv = I.symbolic(p.types[f["ps"][0]["t"]], "w")
    w = C.run("set_weights", weights=wv)[1]
    r, w2 = call(C)
    s = the_solve(ck, C, lab, w2)
    if s is None:
        return
    ups = part(ck, C, lab + "new weights: ", s, "cost")
    if ups:
        m = ups[-1]
        for k, a, b in WEIGHTS:
            ck.same_t(lab + "new weights: " + k, V(I, m["ocp"].fields[a].fields[b]), wv.fields[k], m["where"])
            for k2, a2, b2 in WEIGHTS:
                # also if another weight stays as it was
                old = C.o.fields["ocp_"].fields[a2].fields[b2]
                if k2 != k and isinstance(old, T) and old.name:
                    same = TSub(tens={wv.fields[k2].name: lambda *ix, nm=old.name: el(nm, *ix)})
                    got = V(I, m["ocp"].fields[a].fields[b])
                    got = T(got.rows, got.cols, lambda i, j, g=got, z=same: subst(g.at(i, j), z))
                    ck.same_t(lab + "new weights: %s, when %s stays the same" % (k, k2), got, wv.fields[k], m["where"])
        ck.rule(lab + "new weights: the objective is differentiated by its own derivatives", m["dt"][:1] in ([3], [4]), m["where"], str(m["dt"]))
        an = [e for e in before(C, s, "analyze") if I.mpc.index(e) > I.mpc.index(m)]
        if not an:
            ck.violated(lab + "new weights: the solver analyzes the new program", m["where"], "weights determine the sparsity pattern of the Hessian; no analysis follows this update")
        else:
            ck.same(lab + "new weights: the solver analyzes the new program", or_(not_(m["pc"]), *[e["pc"] for e in an]), TRUE, m["where"])
    # ---- the weights stay in force
    k0 = len(I.mpc)
    call(C)
    for m in I.mpc[k0:]:
        if m["k"] == "update" and "cost" in m["parts"]:
            for k, a, b in WEIGHTS:
                ck.same_t(lab + "weights later: " + k, V(I, m["ocp"].fields[a].fields[b]), wv.fields[k], m["where"])


def setters(ck, t_):
    """desired trajectories and resets"""
    p = program()
    lab = Ctrl(p, t_).lab
    # ---- desired trajectories
    for name, which, ns in (("set_udes", "u", ("udes",)), ("set_xdes", "x", ("xdes", "dxdes"))):
        for k in range(2):
            C = Ctrl(p, t_)
            kw = {"new_" + q: UserFn("new_" + q) for q in ns}
            _, w = C.run(name, k, **kw)
            o = C.I.st.roots["&c.%sdes_" % which]
            for q in ns:
                got = o.fields.get(q)
                if C.I.unsupported:
                    ck.undecided(lab + name, w, str(C.I.unsupported[:2]))
                ck.rule(lab + "%s (%d): %s" % (name, k, q), same_fun(got, "new_" + q) if isinstance(got, UserFn) else None, w, repr(got)[:100])
    C = Ctrl(p, t_)
    _, w = C.run("reset_warmstart")
    a = C.I.st.roots["o"].fields["warmstart_"]
    ck.same(lab + "reset_warmstart: nothing is kept", a.has if isinstance(a, Opt) else FALSE, FALSE, w)


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = program()
    ctrl = classes(p, "MPC", 3)
    own = lambda *ns: [t for n in ns for t in classes(p, n)]
    jobs = {"M01": [(quadratic, t) for t in own("MPCIntegrand", "MPCObj")] + [(weights, t) for t in ctrl],
            "M02": [(linear, t) for t in own("MPCDyn", "MPCCR", "MPCCE")] + [(at_solve, t) for t in ctrl],
            "M03": [(f, t) for t in ctrl for f in (outputs, setters)]}[pid]
    parallel(ck, jobs, lambda c, j: j[0](c, j[1]))
    return ck
