"""Obligations on optimal control problems as quadratic programs (properties R01..): any problem, mesh and linearization"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp, RefV, Seq, VecV, Closure
from sa import smooth
from . import colloc
from .colloc import N, NI, Ki, tau, Mesh_MODEL, leaves_of

_p = {}
NUM = 0                             # the differentiation method requested in tu/ocp.cpp
V = smooth.V


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("ocp", incs=("stub",)))
    return _p["p"]


# ------------------------------------------------------------------ views, and functions on a mesh
class Part(Val):
    """std::views::transform(f) without its range"""
    def __init__(self, f):
        self.f = f


def mapped(I, r, fv, e):
    if not isinstance(r, VecV):
        return NotImplemented
    return VecV(r.size, lambda i: V(I, I.invoke(fv, [LVTemp(r.f(i))], e)))


def transform(I, e, o, a):
    a = a[1:] if o is None and e.get("op") == "()" else a
    fv = V(I, a[-1])
    return Part(fv) if len(a) == 1 else mapped(I, V(I, a[0]), fv, e)


def pipe(I, e, o, a):
    if len(a) != 2:
        return NotImplemented
    r, pt = [V(I, x) for x in a]
    return mapped(I, r, pt.f, e) if isinstance(pt, Part) else NotImplemented


VIEWS = {q: transform for q in ("std::ranges::views::_Transform::operator()", "std::ranges::views::__adaptor::_RangeAdaptor::operator()")}
VIEWS.update({q: pipe for q in ("std::ranges::views::operator|", "std::ranges::views::__adaptor::operator|", "std::ranges::operator|")})


def mesh_call(name):
    """mesh_eval and mesh_integrate: what they are called with is recorded, what they return is unknown"""
    def h(I, e, o, a):
        out = I.lv(a[0])
        while isinstance(out.get(I), RefV):
            out = out.get(I).lv
        v = out.get(I)
        targs = [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, int)]
        xs, us = V(I, a[5]), V(I, a[6])
        if not isinstance(v, Rec) or not isinstance(xs, VecV) or not isinstance(us, VecV) or not targs:
            return NotImplemented
        c = {"name": name, "K": targs[0], "dt": targs[1] if len(targs) > 1 else 4, "out": out, "f": V(I, a[2]), "t0": I.scalar(V(I, a[3])), "tf": I.scalar(V(I, a[4])),
             "xs": xs, "us": us, "scale": I.cond(V(I, a[7])) if len(a) > 7 else FALSE, "where": I.prog.loc(e), "pc": I.st.pc,
             "lambda": v.fields.get("lambda"), "n": sum(x["name"] == name for x in I.mesh_calls)}
        # the points are taken when the call is made
        g = I.generic
        c["x"], c["u"] = xs.f(g), us.f(g)
        I.mesh_calls.append(c)
        nf, nv = I.pb.out_rows(c["f"], name), I.pb.nvar + 2
        nm = "%s%d" % ("mE" if name == "mesh_eval" else "mI", c["n"])
        for k, rows, cols in (("F", nf, ONE), ("dF", nf, nv), ("d2F", nv, nv))[:c["K"] + 1]:
            old = v.fields.get(k)
            c[k] = T.base(nm + k, rows, cols)
            LV(out.root, out.path + (k,)).set(I, T.base(nm + k, rows, cols, old.meta if isinstance(old, T) else None))
        LV(out.root, out.path + ("allocated",)).set(I, TRUE)
        return Opq("void")
    return h


def mesh_value(I, e, o, a):
    """value at t of the interpolating polynomials through the columns"""
    t = I.scalar(V(I, a[0]))
    r = V(I, a[1])
    if not isinstance(r, T):
        return NotImplemented
    p = I.scalar(V(I, a[2])) if len(a) > 2 else ZERO
    ext = I.cond(V(I, a[3])) if len(a) > 3 else TRUE
    n = I.prog.ty(e).get("rows", -1)
    return tfn("meval", n, 1, [t, lam(r), p, ite(ext, ONE, ZERO)])


MODEL = dict(VIEWS)
MODEL.update({"smooth::feedback::mesh_eval": mesh_call("mesh_eval"), "smooth::feedback::mesh_integrate": mesh_call("mesh_integrate"), colloc.MESH + "eval": mesh_value})


# ------------------------------------------------------------------ the problem
class Pb:
    def __init__(self, xg):
        self.xg = xg
        self.nx, self.nu, self.ncr, self.nce = (3, 2, 2, 3) if xg else (2, 3, 3, 2)
        self.lab = "state in a group" if xg else "input in a group"
        self.nvar = (N + 1) * self.nx + N * self.nu
        self.ncon = N * self.nx + N * self.ncr + self.nce
        self.tf = sym("tf")
        self.ub = (N + 1) * self.nx         # first input
        self.crb = N * self.nx              # first row of the running constraints
        self.ceb = self.crb + N * self.ncr
        self.bnd = {k: T.base("ocp." + k, self.ncr if k in ("crl", "cru") else self.nce, 1) for k in ("crl", "cru", "cel", "ceu")}
        self.q1 = tconst(1, 1, 1)

    def out_rows(self, f, name):
        n = {"cr": self.ncr, "g": 1, "ce": self.nce, "f": self.nx}.get(getattr(f, "name", None), 1)
        return P(n) if name == "mesh_integrate" else N * n

    def fl(self, v):
        return [lam(v) if isinstance(v, T) else v]

    def args(self, *vs):
        return [y for v in vs for y in self.fl(v)]

    def xl(self, t):
        return fn("xl_fun", t) if self.xg else tfn("xl_fun", self.nx, 1, [t])

    def ul(self, t):
        return tfn("ul_fun", self.nu, 1, [t]) if self.xg else fn("ul_fun", t)

    def ph(self, k, v):
        nm = "ph1.%d" % k
        return T.base(nm, v.rows, v.cols) if isinstance(v, T) else sym(nm)

    def D(self, name, rows, at, k, r, c):
        """derivative of component r of a function by coordinate c of its k-th argument; rows 0: a scalar function"""
        av = list(at)
        av[k] = self.ph(k, at[k])
        v = fn(name, *self.args(*av)) if rows == 0 else tfn(name, rows, 1, self.args(*av)).at(r, ZERO)
        return fn("D", v, c, *self.fl(at[k]))

    def val(self, name, rows, at):
        return fn(name, *self.args(*at)) if rows == 0 else tfn(name, rows, 1, self.args(*at))

    def D2(self, name, at):
        n = 2 + 2 * self.nx
        return tfn("D2", n, n, self.args(self.val(name, 0, at), *at))

    def end(self):
        return [self.tf, self.xl(ZERO), self.xl(self.tf), self.q1]

    def ocp(self, I, ty):
        v = I.symbolic(ty, "ocp")
        for k in ("theta", "f", "g", "cr", "ce"):
            v.fields[k] = UserFn(k)
        v.fields.update(self.bnd)
        return v

    def qp(self, I, ty):
        """program of a previous call: entries of rows of constraints that are never stored are zero"""
        v = I.symbolic(ty, "qp")

        def A(i, j):
            stored = pred("nzval", el("mE0dF", i - self.crb, j + 2))
            ends = or_(not_(ge(j - self.nx, 0)), and_(ge(j - N * self.nx, 0), not_(ge(j - self.ub, 0))))
            z = or_(and_(ge(i - self.crb, 0), not_(ge(i - self.ceb, 0)), not_(stored)), and_(ge(i - self.ceb, 0), not_(ends)))
            return ite(z, ZERO, el("qpA", i, j))
        old = v.fields
        v.fields.update(A=T(self.ncon, self.nvar, A, meta=old["A"].meta), P=T.base("qpP", self.nvar, self.nvar, old["P"].meta), q=T.base("qpq", self.nvar, 1),
                        l=T.base("qpl", self.ncon, 1), u=T.base("qpu", self.ncon, 1))
        return v


def start(p, B):
    I = Interp(p, models=dict(smooth.MODELS, **Mesh_MODEL, **MODEL))
    I.ext = {"vf::Grp"}
    I.strict = True
    I.dims = {}
    I.pb, I.mesh_calls = B, []
    I.generic = gidx("a", N)
    return I


def xgroup(p, f):
    for q in f["ps"]:
        s = p.types[q["t"]].get("s", "")
        if "OCP<" in s:
            return s.split("OCP<", 1)[1].lstrip().startswith("vf::Grp")
    raise AnchorMissing(f["name"])


def wrapped(p, name):
    fs = [f for f in p.funcs.values() if f["name"] == name and f.get("body")]
    if len(fs) != 2:
        raise AnchorMissing(name)
    return fs


def bad(I):
    return [u for u in I.unsupported if "SourceLocExpr" not in u[0] and "PredefinedExpr" not in u[0]]


def forget_dynamics(I, L):
    """R03: what the loop over the intervals leaves in the rows of the dynamics is unknown, and other rows are as before (R02 decides that)"""
    if L.trip != NI:
        return
    for k in L.heads:
        if k[-1] in ("A", "l", "u"):
            lv = LV(k[0], k[1:])
            new, old = lv.get(I), L.init[k]
            if isinstance(new, T) and isinstance(old, T):
                nm = "dyn." + k[-1]
                lv.set(I, T(new.rows, new.cols, lambda i, j, nm=nm, old=old: ite(gt(I.pb.crb - i, 0), el(nm, i, j), old.at(i, j)), meta=new.meta))


def execute(p, name, f, pid):
    B = Pb(xgroup(p, f))
    I = start(p, B)
    if pid != "R02":
        I.after_loop = forget_dynamics
    role = dict(zip([q["name"] for q in f["ps"]], {"use_allocate": ["qp", "work", "ocp", "mesh"], "use_update": ["qp", "work", "ocp", "mesh", "tf", "xl", "ul"],
                                                  "use_convert": ["ocp", "mesh", "tf", "xl", "ul"], "use_solution": ["ocp", "mesh", "sol", "tf", "xl", "ul"]}[name]))
    for q in f["ps"]:
        r, ty = role[q["name"]], p.types[q["t"]]
        v = UserFn(r + "_fun") if r in ("xl", "ul") else B.ocp(I, ty) if r == "ocp" else B.qp(I, ty) if r == "qp" else I.symbolic(ty, r)
        if r == "work" and name == "use_update":
            v.fields["int_out"].fields["lambda"] = tconst(1, 1, 1)
        I.st.roots[q["name"]] = v
    I.role = {r: n for n, r in role.items()}
    out = I.run(f, argvals=[LV(q["name"]) for q in f["ps"]])
    return I, B, out


def run(pid, tier, seed):
    evalt.LOOP_FREE = True
    ck = Check(pid, tier, seed)
    p = program()
    if pid == "R04":
        jobs = [("use_allocate", f) for f in wrapped(p, "use_allocate")] + [("use_convert", f) for f in wrapped(p, "use_convert")] + \
               [("use_solution", f) for f in wrapped(p, "use_solution")]
    else:
        jobs = [(n, f) for n in ("use_update", "use_convert") for f in wrapped(p, n)]
    parallel(ck, jobs, lambda c, j: one(c, p, pid, *j))
    return ck


def one(ck, p, pid, name, f):
    I, B, out = execute(p, name, f, pid)
    lab = "%s, %s: " % ({"use_update": "ocp_to_qp_update", "use_convert": "ocp_to_qp", "use_allocate": "ocp_to_qp_allocate", "use_solution": "qpsol_to_ocpsol"}[name], B.lab)
    w = p.loc(f)
    if bad(I):
        ck.undecided(lab + "constructs not understood", w, str(bad(I)[:3]))
    if name == "use_solution":
        ref = [g for g in wrapped(p, "use_expected") if xgroup(p, g) == B.xg]
        got, want = p.types[f["ret"]].get("s"), p.types[ref[0]["ret"]].get("s")
        ck.rule(lab + "type of the solution", got == want, w, "%s instead of %s" % (got, want))
        return solution(ck, lab, w, I, B, out)
    qp = I.st.roots[I.role["qp"]] if name in ("use_update", "use_allocate") else out
    if not isinstance(qp, Rec) or any(not isinstance(qp.fields.get(k), T) for k in "PqAlu"):
        return ck.undecided(lab + "quadratic program", w, repr(qp)[:200])
    if pid == "R04":
        sizes(ck, lab, w, B, qp.fields)
        if name == "use_allocate":
            work = I.st.roots[I.role["work"]]
            ck.same_t(lab + "one multiplier for the integral, equal to one", work.fields["int_out"].fields["lambda"], tconst(1, 1, 1), w)
        else:
            ck.rule(lab + "derivatives are taken with the requested method", getattr(I, "dr_types", set()) <= {NUM} and all(c["dt"] == NUM for c in I.mesh_calls), w,
                    "methods %s" % sorted(getattr(I, "dr_types", set()) | {c["dt"] for c in I.mesh_calls}))
        return
    {"R01": cost, "R02": dynamics, "R03": constraints}[pid](ck, lab, w, I, B, qp.fields)


def sizes(ck, lab, w, B, o):
    for k, r, c in (("P", B.nvar, B.nvar), ("q", B.nvar, ONE), ("A", B.ncon, B.nvar), ("l", B.ncon, ONE), ("u", B.ncon, ONE)):
        ck.same(lab + "rows of %s" % k, o[k].rows, r, w)
        ck.same(lab + "columns of %s" % k, o[k].cols, c, w)


def the_call(ck, lab, w, I, B, f, fun):
    """the last call of mesh_eval / mesh_integrate for the function"""
    cs = [c for c in I.mesh_calls if c["name"] == fun and isinstance(c["f"], UserFn) and c["f"].name == f]
    if not cs:
        ck.undecided(lab + "%s of %s" % (fun, f), w, "no call")
        return None
    c = cs[-1]
    w = c["where"]
    i = I.generic
    gi = {}
    gidx("a", N, gi)
    nm = lab + "%s of %s: " % (fun, f)
    t = B.tf * tau(i)
    ck.same(nm + "initial time", c["t0"], ZERO, w)
    ck.same(nm + "final time", c["tf"], B.tf, w)
    for k, want in (("x", B.xl(t)), ("u", B.ul(t))):
        got = c[k]
        if isinstance(want, T):
            ck.same_t(nm + k + " at a node", got, want, w, gi=gi)
        else:
            ck.same(nm + k + " at a node", I.scalar(got), want, w, gi=gi)
    ck.same(nm + "not scaled", B_(c["scale"]), FALSE, w)
    if c["K"] == 2:
        if isinstance(c["lambda"], T):
            ck.same_t(nm + "multipliers", c["lambda"], tconst(1, 1, 1), w)
        else:
            ck.undecided(nm + "multipliers", w, repr(c["lambda"]))
    return c


def B_(x):
    return x if isinstance(x, Bool) else B(x)


def blocks(B):
    """groups of variables: (name, first coordinate, dimension, of generic node?)"""
    return [("x0", ZERO, B.nx), ("xf", N * B.nx, B.nx)]


def cost(ck, lab, w, I, B, o):
    c = the_call(ck, lab, w, I, B, "g", "mesh_integrate")
    if c is None:
        return
    H, J = (lambda i, j: c["d2F"].at(i + 2, j + 2)), (lambda j: c["dF"].at(ZERO, j + 2))
    at = B.end()
    gq = B.D("theta", 0, at, 3, ZERO, ZERO)
    D2 = B.D2("theta", at)
    # a mesh has a node
    h, NN, fix = some_nodes()
    n, m = B.nx, B.nu
    ub = (NN + 1) * n
    # every variable: the first and the last state coordinate by coordinate, the others in general
    parts = [("x0[%d]" % k, lambda gi, k=k: P(k), 1 + k) for k in range(n)] + [("xf[%d]" % k, lambda gi, k=k: NN * n + k, 1 + n + k) for k in range(n)] + \
            [("a state between", lambda gi, s="p": n + gidx(s, h * n, gi), None), ("an input", lambda gi, s="p": ub + gidx(s, NN * m, gi), None)]
    for na, fa, oa in parts:
        gi = {}
        r = fa(gi)
        want = gq * J(r)
        if oa is not None:
            want = want + (B.D("theta", 0, at, 1, ZERO, P(oa - 1)) if oa <= n else B.D("theta", 0, at, 2, ZERO, P(oa - 1 - n)))
        ck.same(lab + "q for " + na, subst(o["q"].at(r), fix), subst(want, fix), w, gi=gi)
        for nb, fb, ob in parts:
            if oa is not None and ob is not None and ob < oa:
                continue
            g2 = {}
            ra, rb = fa(g2), fb(g2) if ob is not None else fb(g2, "q")
            want = gq * H(ra, rb)
            if oa is not None and ob is not None:
                want = want + D2.at(P(oa), P(ob))
            ck.same(lab + "P for %s, %s" % (na, nb), subst(o["P"].at(ra, rb), fix), subst(want, fix), w, under=ge(rb - ra, 0), gi=g2)


def some_nodes():
    tm.SIZE_SYMS.add("h")
    tm.INT_SYMS.add("h")
    h = sym("h")
    return h, h + 1, {("sym", "N"): h + 1}


def dynamics(ck, lab, w, I, B, o):
    cand = [L for L in I.loops if getattr(L, "closed", False) and L.trip == NI and any(k[-1] == "A" for k in L.heads)]
    if len(cand) != 1:
        return ck.undecided(lab + "the loop over the intervals", w, "%d loops" % len(cand))
    L = cand[0]
    w = I.prog.loc(L.node)
    key = {k[-1]: k for k in L.heads if k[-1] in ("A", "l", "u")}
    ints = [k for k, h in L.heads.items() if k not in key.values() and isinstance(h, Poly)]
    if set(key) != {"A", "l", "u"} or len(ints) != 1:
        return ck.undecided(lab + "the loop over the intervals", w, "changes %s" % list(L.heads))
    v = bv(L.iv)
    b = L.heads[ints[0]]
    (ba,), = [list(atoms_of(b))]
    tm.INT_SYMS.add(ba[1])
    tm.SIZE_SYMS.add(ba[1])
    tm.RANGES[L.iv] = (ZERO, NI)
    # the intervals of a mesh partition its nodes: those of this interval are among them
    tm.SIZE_SYMS.add("h")
    tm.INT_SYMS.add("h")
    h = sym("h")
    NN = b + Ki(v) + h
    fix = {("sym", "N"): NN}
    gi = {L.iv: NI}
    n, m = P(B.nx), P(B.nu)
    ub = (NN + 1) * B.nx
    ck.same(lab + "the first node of the first interval", L.init[ints[0]], ZERO, w)
    ck.same(lab + "the first node of the next interval", L.end[ints[0]], b + Ki(v), w, gi=gi)
    A0, A1 = L.heads[key["A"]], L.end[key["A"]]

    def put(name, got, want, under=TRUE):
        ck.same(name, subst(got, fix), subst(want, fix), w, under=subst_b(under, fix), gi=gi)
    inside = gidx("k", Ki(v), gi)
    r = gidx("b", n, gi)
    j = b + inside
    t = B.tf * fn("itau", v, inside)
    x, u = B.xl(t), B.ul(t)
    at = [t, x, u]
    F = B.val("f", B.nx, at)
    dx = T(n, ONE, lambda i, _: fn("D", B.xl(sym("ph1.0")) if not isinstance(B.xl(ZERO), T) else B.xl(sym("ph1.0")).at(i), *((i, ZERO) if B.xg else (ZERO,)), t))
    R = n * j + r
    up = lambda c: A1.at(R, c) - A0.at(R, c)
    # ---- columns of the states of the interval (and of the first of the next one)
    for cc in range(B.nx):
        cc = P(cc)
        D = -fn("alpha", v) * fn("Dus", v, inside, inside)
        want = B.tf * B.D("f", B.nx, at, 1, r, cc) + ite(eq(r, cc), D, ZERO)
        if B.xg:
            want = want - B.tf / 2 * tfn("ad", n, n, [lam(tadd(F, dx))]).at(r, cc)
        put(lab + "A by x%s of the node" % cc, up(n * j + cc), want)
        e = gidx("e", inside, gi)
        put(lab + "A by x%s of an earlier node of the interval" % cc, up(n * (b + e) + cc), ite(eq(r, cc), -fn("alpha", v) * fn("Dus", v, e, inside), ZERO))
        l = inside + 1 + gidx("l", Ki(v) - inside, gi)
        put(lab + "A by x%s of a later node of the interval and its end" % cc, up(n * (b + l) + cc), ite(eq(r, cc), -fn("alpha", v) * fn("Dus", v, l, inside), ZERO))
        y = gidx("y", b, gi)
        put(lab + "A by x%s of earlier intervals" % cc, up(n * y + cc), ZERO)
        z = b + Ki(v) + 1 + gidx("z", h, gi)
        put(lab + "A by x%s of later intervals" % cc, up(n * z + cc), ZERO)
    for cc in range(B.nu):
        cc = P(cc)
        put(lab + "A by u%s of the node" % cc, up(ub + m * j + cc), B.tf * B.D("f", B.nx, at, 2, r, cc))
        for nm, k in (("earlier", gidx("y2", j, gi)), ("later", j + 1 + gidx("z2", NN - j - 1, gi))):
            put(lab + "A by u%s of %s nodes" % (cc, nm), up(ub + m * k + cc), ZERO)
    # ---- rows of the other intervals
    want = -B.tf * (F.at(r) - dx.at(r))
    for k in "lu":
        put(lab + k, L.end[key[k]].at(R), want)
    col = gidx("c", ub + NN * B.nu, gi)
    for nm, row in (("earlier intervals", n * gidx("y3", b, gi) + r), ("later intervals", n * (b + Ki(v) + gidx("z3", h, gi)) + r),
                    ("constraints", n * NN + gidx("m", NN * B.ncr + B.nce, gi))):
        put(lab + "A of %s: unchanged" % nm, A1.at(row, col), A0.at(row, col))
        for k in "lu":
            put(lab + "%s of %s: unchanged" % (k, nm), L.end[key[k]].at(row), L.heads[key[k]].at(row))
    row, col = gidx("r", N * n, gi), gidx("c2", B.nvar, gi)
    ck.same(lab + "A: zero before", L.init[key["A"]].at(row, col), ZERO, w, gi=gi)
    # ---- later changes leave these rows alone
    for k in ("A", "l", "u"):
        aft = L.after.get(key[k])
        if not isinstance(aft, T):
            ck.undecided(lab + "%s after the loop" % k, w, repr(aft))
        else:
            c = (row, col) if k == "A" else (row, ZERO)
            ck.same(lab + "%s after the loop: unchanged" % k, o[k].at(*c), aft.at(*c), w, gi=gi)


def constraints(ck, lab, w, I, B, o):
    c = the_call(ck, lab, w, I, B, "cr", "mesh_eval")
    if c is not None:
        gi = {}
        i, r, j = gidx("a", N, gi), gidx("b", B.ncr, gi), gidx("v", B.nvar, gi)
        row = i * B.ncr + r
        at = B.crb + row
        J = c["dF"].at(row, j + 2)
        ck.same(lab + "A of running constraints", o["A"].at(at, j), J, w, gi=gi)
        for k, b in (("l", "crl"), ("u", "cru")):
            ck.same(lab + "%s of running constraints" % k, o[k].at(at), B.bnd[b].at(r) - c["F"].at(row), w, gi=gi)
    h, NN, fix = some_nodes()
    gi = {}
    r = gidx("b", B.nce, gi)
    at = B.end()
    val = B.val("ce", B.nce, at)

    def put(name, row, col, want):
        got = subst(o["A"].at(row, col), fix)
        ck.same(name, got, want, w, gi=gi)
    row = NN * B.nx + NN * B.ncr + r
    for cc in range(B.nx):
        put(lab + "A of end constraints by x%d at the start" % cc, row, P(cc), B.D("ce", B.nce, at, 1, r, P(cc)))
        put(lab + "A of end constraints by x%d at the end" % cc, row, NN * B.nx + cc, B.D("ce", B.nce, at, 2, r, P(cc)))
        put(lab + "A of end constraints by x%d between" % cc, row, B.nx * (1 + gidx("d", h, gi)) + cc, ZERO)
    for cc in range(B.nu):
        put(lab + "A of end constraints by u%d" % cc, row, (NN + 1) * B.nx + B.nu * gidx("d2", NN, gi) + cc, ZERO)
    for k, b in (("l", "cel"), ("u", "ceu")):
        ck.same(lab + "%s of end constraints" % k, o[k].at(B.ceb + r), B.bnd[b].at(r) - val.at(r), w, gi=gi)


def solution(ck, lab, w, I, B, out):
    if not isinstance(out, Rec):
        return ck.undecided(lab + "solution", w, repr(out)[:200])
    ck.same(lab + "initial time", I.scalar(out.fields.get("t0")), ZERO, w)
    ck.same(lab + "final time", I.scalar(out.fields.get("tf")), B.tf, w)
    t = sym("t")
    for k, fun, first, n, cols, ext in (("x", B.xl, ZERO, B.nx, N + 1, 1), ("u", B.ul, B.ub, B.nu, N, 0)):
        f = out.fields.get(k)
        if not isinstance(f, Closure):
            ck.undecided(lab + k, w, repr(f)[:200])
            continue
        got = V(I, I.invoke(f, [LVTemp(t)], {}))
        M = T(P(n), cols, lambda i, j: el("sol.primal", first + j * n + i))
        tng = tfn("meval", n, 1, [t / B.tf, lam(M), ZERO, P(ext)])
        base = fun(t)
        if isinstance(base, T):
            ck.same_t(lab + k + " at a time", got, tadd(base, tng), w)
        else:
            ck.same(lab + k + " at a time", I.scalar(got), fn("rplus", base, lam(tng)), w)
