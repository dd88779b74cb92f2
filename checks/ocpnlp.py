"""Obligations on optimal control problems as nonlinear programs (properties N01..): any problem, mesh and point"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp, RefV, Seq, VecV, Closure
from sa import smooth
from . import colloc, ocp as OC
from .colloc import N, NI, Ki, tau, wq, Mesh_MODEL

_p = {}
NUM = 0                             # the differentiation method requested in tu/ocpnlp.cpp
NX, NU, NQ, NCR, NCE = 3, 4, 2, 5, 6
V = smooth.V
TF, Q0, X0 = ZERO, P(1), P(1 + NQ)  # first variables


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("ocpnlp", incs=("stub",)))
    return _p["p"]


def columns(v):
    return VecV(v.cols, lambda i: T(v.rows, ONE, lambda r, c: v.at(r, i))) if isinstance(v, T) else v


def called(name):
    """mesh_dyn, mesh_eval and mesh_integrate: what they are called with is recorded, what they return is unknown"""
    def h(I, e, o, a):
        out = I.lv(a[0])
        while isinstance(out.get(I), RefV):
            out = out.get(I).lv
        v = out.get(I)
        targs = [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, int)]
        xs, us = columns(V(I, a[5])), columns(V(I, a[6]))
        if not isinstance(v, Rec) or not isinstance(xs, VecV) or not isinstance(us, VecV) or not targs:
            return NotImplemented
        g = I.generic
        c = {"name": name, "K": targs[0], "dt": targs[1] if len(targs) > 1 else None, "f": V(I, a[2]), "t0": I.scalar(V(I, a[3])), "tf": I.scalar(V(I, a[4])),
             "nx": xs.size, "nu": us.size, "x": xs.f(g), "u": us.f(g), "scale": I.cond(V(I, a[7])) if len(a) > 7 else FALSE, "where": I.prog.loc(e), "lambda": v.fields.get("lambda")}
        I.mesh_calls.append(c)
        rows = {"f": NX, "g": NQ, "cr": NCR}.get(getattr(c["f"], "name", None), 1)
        nf, nv = P(rows) if name == "mesh_integrate" else N * rows, 2 + (N + 1) * NX + N * NU
        nm = "%s%d" % ({"mesh_dyn": "mD", "mesh_eval": "mE", "mesh_integrate": "mI"}[name], sum(x["name"] == name for x in I.mesh_calls))
        for k, r, cc in (("F", nf, ONE), ("dF", nf, nv), ("d2F", nv, nv))[:c["K"] + 1]:
            old = v.fields.get(k)
            c[k] = T.base(nm + k, r, cc)
            LV(out.root, out.path + (k,)).set(I, T.base(nm + k, r, cc, old.meta if isinstance(old, T) else None))
        return Opq("void")
    return h


MODEL = dict(OC.VIEWS)
MODEL.update({"smooth::feedback::" + k: called(k) for k in ("mesh_eval", "mesh_integrate", "mesh_dyn")})
MODEL[colloc.MESH + "eval"] = OC.mesh_value


def start(p):
    I = Interp(p, models=dict(smooth.MODELS, **Mesh_MODEL, **MODEL))
    I.ext = set()
    I.strict = True
    I.dims = {}
    I.mesh_calls = []
    I.generic = gidx("a", N)
    I.unroll = 4
    return I


BND = {k: T.base("ocp." + k, NCR if k in ("crl", "cru") else NCE, 1) for k in ("crl", "cru", "cel", "ceu")}


def problem(I, ty):
    v = I.symbolic(ty, "ocp")
    for k in ("theta", "f", "g", "cr", "ce"):
        v.fields[k] = UserFn(k)
    v.fields.update(BND)
    return v


def func(p, name):
    fs = [f for f in p.funcs.values() if f["name"] == name and f.get("body")]
    if len(fs) != 1:
        raise AnchorMissing(name)
    return fs[0]


def call(I, p, name, **vals):
    f = func(p, name)
    args = []
    for q in f["ps"]:
        ty, n = p.types[q["t"]], q["name"]
        if n == "nlp":
            args.append(LV("nlp"))
            continue
        root = I.uid(n)
        I.st.roots[root] = vals[n] if n in vals else problem(I, ty) if n == "ocp" else I.symbolic(ty, n)
        args.append(LV(root))
    return I.run(f, argvals=args), p.loc(f)


def made(p):
    I = start(p)
    r, w = call(I, p, "use_convert")
    if not isinstance(r, Rec):
        raise AnchorMissing("ocp_to_nlp")
    I.st.roots["nlp"] = r
    return I, w


def understood(ck, lab, I, w):
    bad = OC.bad(I)
    if bad:
        ck.undecided(lab + "constructs not understood", w, str(bad[:3]))


# ------------------------------------------------------------------ layout
XLEN, ULEN = NX * (N + 1), NU * N
U0 = X0 + XLEN
NVAR = U0 + ULEN
QC, CR, CE = NX * N, NX * N + NQ, NX * N + NQ + NCR * N
NCON = CE + NCE


def weight(wts=None):
    i = fresh()
    tm.RANGES[i] = (ZERO, N + 1)
    return 1 / maxof([bigmax(i, ZERO, N + 1, wq(bv(i))), P(Fraction(1, 10 ** 6))])


def variables(NN, h):
    """groups of variables (of a mesh with a node): name, position, position among (tf, x0, xf, q), column of the mesh functions"""
    xs = X0 + NX * NN
    out = [("tf", lambda gi, s: TF, 0, ONE)]
    out += [("q[%d]" % k, lambda gi, s, k=k: Q0 + k, 1 + 2 * NX + k, None) for k in range(NQ)]
    out += [("x0[%d]" % k, lambda gi, s, k=k: X0 + k, 1 + k, P(2 + k)) for k in range(NX)]
    out += [("xf[%d]" % k, lambda gi, s, k=k: xs + k, 1 + NX + k, 2 + NX * NN + k) for k in range(NX)]
    out += [("a state between", lambda gi, s: X0 + NX + gidx("p" + s, h * NX, gi), None, 0), ("an input", lambda gi, s: xs + NX + gidx("r" + s, NN * NU, gi), None, 0)]
    return out


def mcol(pos, c):
    """column of the mesh functions for a variable at pos"""
    return pos - X0 + 2 if c == 0 and not isinstance(c, Poly) else c


def point(x):
    seg = lambda b, n: T(P(n), ONE, lambda r, c: x.at(b + r, ZERO))
    return [x.at(TF, ZERO), seg(X0, NX), seg(X0 + NX * N, NX), seg(Q0, NQ)]


def fl(v):
    return [lam(v) if isinstance(v, T) else v]


def args(*vs):
    return [y for v in vs for y in fl(v)]


def ph(k, v):
    nm = "ph1.%d" % k
    return T.base(nm, v.rows, v.cols) if isinstance(v, T) else sym(nm)


def value(name, rows, at):
    return fn(name, *args(*at)) if rows == 0 else tfn(name, rows, 1, args(*at))


def deriv(name, rows, at, v, r):
    """derivative of component r by the variable v of (tf, x0, xf, q)"""
    k = 0 if v == 0 else 1 if v < 1 + NX else 2 if v < 1 + 2 * NX else 3
    c = v - (0, 1, 1 + NX, 1 + 2 * NX)[k]
    av = list(at)
    av[k] = ph(k, at[k])
    y = fn(name, *args(*av)) if rows == 0 else tfn(name, rows, 1, args(*av)).at(r, ZERO)
    return fn("D", y, P(c), *fl(at[k]))


NV = 1 + 2 * NX + NQ


def second(name, rows, at, i, j, o=0):
    """second derivative of output o"""
    i, j = min(i, j), max(i, j)
    return tfn("D2", NV, NV * max(rows, 1), args(value(name, rows, at), *at)).at(P(i), P(j + NV * o))


def expand(x):
    """sums over a fixed number of indices written out"""
    out = ZERO
    for (bs, fs), c in x.terms.items():
        k = [q for q, (v, lo, hi) in enumerate(bs) if lo.const() is not None and hi.const() is not None and hi.const() - lo.const() <= 8]
        t = Poly({(bs, fs): c})
        if k:
            v, lo, hi = bs[k[0]]
            body = Poly({(bs[:k[0]] + bs[k[0] + 1:], fs): c})
            t = sum((expand(subst(body, {("bv", v): P(n)})) for n in range(int(lo.const()), int(hi.const()))), ZERO)
        out = out + t
    return out


def symmetric(x):
    """second derivatives are symmetric"""
    x = expand(x)
    m = {}
    for a in atoms_of(x):
        if a[0] == "fn" and a[1] == "D2":
            i, j = [P(y).const() if isinstance(y, Poly) else None for y in a[2][-2:]]
            if i is not None and j is not None:
                o, jj = divmod(int(j), NV)
                if jj < i:
                    m[a] = fn("D2", *(a[2][:-2] + (P(jj), P(int(i) + NV * o))))
    return subst(x, m) if m else x


# ------------------------------------------------------------------ the checks
def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = program()
    jobs = {"N01": [(values,), (bounds,)], "N02": [(gradient,)] + [(jacobian, g) for g in range(4)], "N03": [(hess_f,)] + [(hess_g, k) for k in range(7)],
            "N04": [(solution,), (back,)]}[pid]
    parallel(ck, jobs, lambda c, j: j[0](c, p, *j[1:]))
    return ck


def bounds(ck, p):
    I, w = made(p)
    understood(ck, "ocp_to_nlp: ", I, w)
    for nm, want in (("n", NVAR), ("m", NCON)):
        r, w = call(I, p, "use_" + nm)
        ck.same("number of %s" % {"n": "variables", "m": "constraints"}[nm], I.scalar(r), want, w)
    W = weight()
    for nm in ("xl", "xu", "gl", "gu"):
        r, w = call(I, p, "use_" + nm)
        understood(ck, nm + ": ", I, w)
        if not isinstance(r, T):
            ck.undecided(nm, w, repr(r)[:200])
            continue
        ck.same(nm + ": size", r.rows, NVAR if nm[0] == "x" else NCON, w)
        gi = {}
        if nm[0] == "x":
            ck.same(nm + ": final time", r.at(ZERO, ZERO), ZERO if nm == "xl" else INF, w)
            ck.same(nm + ": others", r.at(1 + gidx("v", NVAR - 1, gi), ZERO), -INF if nm == "xl" else INF, w, gi=gi)
            continue
        lo = nm == "gl"
        i, k = gidx("a", N, gi), gidx("b", NCR, gi)
        ck.same(nm + ": dynamics", r.at(gidx("d", N * NX, gi), ZERO), ZERO, w, gi=gi)
        ck.same(nm + ": integrals", r.at(QC + gidx("e", P(NQ), gi), ZERO), ZERO, w, gi=gi)
        for k in range(NCR):
            ck.same(nm + ": running constraint %d of a node" % k, r.at(CR + NCR * i + k, ZERO), W * wq(i) * BND["crl" if lo else "cru"].at(P(k), ZERO), w, gi=gi)
        ck.same(nm + ": end constraints", r.at(CE + gidx("f", P(NCE), gi), ZERO), BND["cel" if lo else "ceu"].at(gidx("f", P(NCE), gi), ZERO), w, gi=gi)


def evaluated(p, name, lam_=False):
    """a second evaluation at another point"""
    I, w = made(p)
    for n in ("p", "x"):
        kw = {"x": T.base("x" + n, NVAR, 1)}
        if lam_:
            kw["lambda"] = T.base("l" + n, NCON, 1)
        I.mesh_calls = []
        r, w = call(I, p, name, **kw)
    return I, r, kw["x"], kw.get("lambda"), w


def calls(ck, lab, I, x, K, lams=None):
    """the functions on the mesh are those of the point"""
    out = {}
    gi = {}
    i, r = gidx("a", N, gi), gidx("b", P(NX), gi)
    for fun, f in (("mesh_dyn", "f"), ("mesh_integrate", "g"), ("mesh_eval", "cr")):
        cs = [c for c in I.mesh_calls if c["name"] == fun and isinstance(c["f"], UserFn) and c["f"].name == f and c["K"] >= K]
        nm = lab + "%s of %s: " % (fun, f)
        if not cs:
            ck.undecided(nm + "called", "", "%d calls" % len(I.mesh_calls))
            return None
        c = out[f] = cs[-1]
        w = c["where"]
        ck.same(nm + "initial time", c["t0"], ZERO, w)
        ck.same(nm + "final time", c["tf"], x.at(TF, ZERO), w)
        ck.same(nm + "number of states", c["nx"], N + 1, w)
        ck.same(nm + "number of inputs", c["nu"], N, w)
        ck.same_t(nm + "state of a node", c["x"], T(P(NX), ONE, lambda r, _: x.at(X0 + NX * i + r, ZERO)), w, gi=gi)
        ck.same_t(nm + "input of a node", c["u"], T(P(NU), ONE, lambda r, _: x.at(U0 + NU * i + r, ZERO)), w, gi=gi)
        ck.same(nm + "scaled by the weights", OC.B_(c["scale"]), TRUE if f == "cr" else FALSE, w)
        if K:
            ck.rule(nm + "requested method", c["dt"] == NUM, w, "method %s" % c["dt"])
        if lams is not None:
            b, n = {"f": (ZERO, NX * N), "g": (QC, P(NQ)), "cr": (CR, NCR * N)}[f]
            if isinstance(c["lambda"], T):
                ck.same_t(nm + "multipliers", c["lambda"], T(n, ONE, lambda r, _: lams.at(b + r, ZERO)), w)
            else:
                ck.undecided(nm + "multipliers", w, repr(c["lambda"])[:100])
    return out


def values(ck, p):
    I, r, x, _, w = evaluated(p, "use_f")
    understood(ck, "f: ", I, w)
    ck.same("f", I.scalar(r), value("theta", 0, point(x)), w)
    I, r, x, _, w = evaluated(p, "use_g")
    understood(ck, "g: ", I, w)
    c = calls(ck, "g: ", I, x, 0)
    if c is None or not isinstance(r, T):
        return ck.undecided("g", w, repr(r)[:100])
    W = weight()
    gi = {}
    ck.same("g: size", r.rows, NCON, w)
    d = gidx("d", N * NX, gi)
    ck.same("g: dynamics", r.at(d, ZERO), W * c["f"]["F"].at(d, ZERO), w, gi=gi)
    for k in range(NQ):
        ck.same("g: integral %d" % k, r.at(QC + k, ZERO), W * (c["g"]["F"].at(P(k), ZERO) - x.at(Q0 + k, ZERO)), w)
    d = gidx("e", N * NCR, gi)
    ck.same("g: running constraints", r.at(CR + d, ZERO), W * c["cr"]["F"].at(d, ZERO), w, gi=gi)
    for k in range(NCE):
        ck.same("g: end constraint %d" % k, r.at(CE + k, ZERO), value("ce", NCE, point(x)).at(P(k), ZERO), w)


def methods(ck, lab, I, w):
    ck.rule(lab + "derivatives are taken with the requested method", getattr(I, "dr_types", set()) <= {NUM}, w, "methods %s" % sorted(getattr(I, "dr_types", set())))


def gradient(ck, p):
    I, r, x, _, w = evaluated(p, "use_df")
    understood(ck, "df_dx: ", I, w)
    if not isinstance(r, T):
        return ck.undecided("df_dx", w, repr(r)[:100])
    methods(ck, "df_dx: ", I, w)
    ck.same("df_dx: rows", r.rows, ONE, w)
    ck.same("df_dx: columns", r.cols, NVAR, w)
    h, NN, fix = OC.some_nodes()
    for nm, pos, v, _ in variables(NN, h):
        gi = {}
        want = ZERO if v is None else deriv("theta", 0, point(x), v, ZERO)
        ck.same("df_dx: by " + nm, subst(r.at(ZERO, pos(gi, "")), fix), subst(want, fix), w, gi=gi)


def jacobian(ck, p, group):
    I, r, x, _, w = evaluated(p, "use_dg")
    understood(ck, "dg_dx: ", I, w)
    c = calls(ck, "dg_dx: ", I, x, 1)
    if c is None or not isinstance(r, T):
        return ck.undecided("dg_dx", w, repr(r)[:100])
    methods(ck, "dg_dx: ", I, w)
    ck.same("dg_dx: rows", r.rows, NCON, w)
    ck.same("dg_dx: columns", r.cols, NVAR, w)
    h, NN, fix = OC.some_nodes()
    W = weight()
    rows = [[("dynamics", lambda gi: gidx("d", NN * NX, gi), ZERO, "f")], [("integral %d" % k, lambda gi, k=k: P(k), QC, "g") for k in range(NQ)],
            [("running constraints", lambda gi: gidx("e", NN * NCR, gi), CR, "cr")], [("end constraint %d" % k, lambda gi, k=k: P(k), CE, None) for k in range(NCE)]][group]
    for rn, row, first, f in rows:
        for nm, pos, v, mc in variables(NN, h):
            gi = {}
            i, j = row(gi), pos(gi, "")
            if f is None:
                want = ZERO if v is None else deriv("ce", NCE, point(x), v, i)
            elif mc is None:
                want = -W if f == "g" and nm == "q[%d]" % i.const() else ZERO
            else:
                want = W * c[f]["dF"].at(i, mcol(j, mc))
            ck.same("dg_dx: %s by %s" % (rn, nm), subst(r.at(first + i, j), fix), subst(want, fix), w, gi=gi)


def pairs(NN, h):
    vs = variables(NN, h)
    for a, (na, pa, va, ma) in enumerate(vs):
        for nb, pb, vb, mb in vs[a:]:
            gi = {}
            i = pa(gi, "")
            j = pb(gi, "") if na != nb or ma != 0 or isinstance(ma, Poly) else pb(gi, "2")
            yield na + ", " + nb, i, j, va, vb, ma, mb, gi
        if na == "a state between":
            # states between before the final one
            for nb, pb, vb, mb in vs[:a]:
                if nb.startswith("xf"):
                    gi = {}
                    yield na + ", " + nb, pa(gi, ""), pb(gi, ""), va, vb, ma, mb, gi


def hess_f(ck, p):
    I, r, x, _, w = evaluated(p, "use_d2f")
    understood(ck, "d2f_dx2: ", I, w)
    if not isinstance(r, T):
        return ck.undecided("d2f_dx2", w, repr(r)[:100])
    methods(ck, "d2f_dx2: ", I, w)
    ck.same("d2f_dx2: rows", r.rows, NVAR, w)
    ck.same("d2f_dx2: columns", r.cols, NVAR, w)
    h, NN, fix = OC.some_nodes()
    for nm, i, j, va, vb, ma, mb, gi in pairs(NN, h):
        want = ZERO if va is None or vb is None else second("theta", 0, point(x), va, vb)
        ck.same("d2f_dx2: " + nm, symmetric(subst(r.at(i, j), fix)), symmetric(subst(want, fix)), w, under=ge(j - i, 0), gi=gi)


def hess_g(ck, p, part):
    I, r, x, lams, w = evaluated(p, "use_d2g", True)
    understood(ck, "d2g_dx2: ", I, w)
    c = calls(ck, "d2g_dx2: ", I, x, 2, lams) if part == 0 else {f: next((y for y in reversed(I.mesh_calls) if getattr(y["f"], "name", None) == f), None) for f in ("f", "g", "cr")}
    if c is not None and None in c.values():
        return
    if c is None or not isinstance(r, T):
        return ck.undecided("d2g_dx2", w, repr(r)[:100])
    methods(ck, "d2g_dx2: ", I, w)
    ck.same("d2g_dx2: rows", r.rows, NVAR, w)
    ck.same("d2g_dx2: columns", r.cols, NVAR, w)
    h, NN, fix = OC.some_nodes()
    W = weight()
    for q, (nm, i, j, va, vb, ma, mb, gi) in enumerate(pairs(NN, h)):
        if q % 7 != part:
            continue
        want = ZERO
        if ma is not None and mb is not None:
            want = want + W * sum((c[f]["d2F"].at(mcol(i, ma), mcol(j, mb)) for f in ("f", "g", "cr")), ZERO)
        if va is not None and vb is not None:
            want = want + sum((lams.at(CE + o, ZERO) * second("ce", NCE, point(x), va, vb, o) for o in range(NCE)), ZERO)
        ck.same("d2g_dx2: " + nm, symmetric(subst(r.at(i, j), fix)), symmetric(subst(want, fix)), w, under=ge(j - i, 0), gi=gi)


def solution(ck, p):
    I = start(p)
    r, w = call(I, p, "use_solution")
    understood(ck, "nlpsol_to_ocpsol: ", I, w)
    got, want = [p.types[func(p, n)["ret"]].get("s") for n in ("use_solution", "use_expected")]
    ck.rule("nlpsol_to_ocpsol: type of the solution", got == want, w, "%s instead of %s" % (got, want))
    if not isinstance(r, Rec):
        return ck.undecided("nlpsol_to_ocpsol", w, repr(r)[:100])
    sol = lambda k, i: el("sol." + k, i)
    lab = "nlpsol_to_ocpsol: "
    ck.same(lab + "initial time", I.scalar(r.fields.get("t0")), ZERO, w)
    tf = sol("x", TF)
    ck.same(lab + "final time", I.scalar(r.fields.get("tf")), tf, w)
    seg = lambda k, b, n: T(P(n), ONE, lambda i, _: sol(k, b + i))
    for k, want in (("Q", seg("x", Q0, NQ)), ("lambda_q", seg("lambda", QC, NQ)), ("lambda_ce", seg("lambda", CE, NCE))):
        v = r.fields.get(k)
        if isinstance(v, (T, Undef)):
            ck.same_t(lab + k, I.tens(v), want, w)
        else:
            ck.undecided(lab + k, w, repr(v)[:100])
    t = sym("t")
    for k, src, first, n, cols, ext in (("x", "x", X0, NX, N + 1, 1), ("u", "x", U0, NU, N, 0), ("lambda_dyn", "lambda", ZERO, NX, N, 0), ("lambda_cr", "lambda", CR, NCR, N, 0)):
        f = r.fields.get(k)
        if not isinstance(f, Closure):
            ck.undecided(lab + k, w, repr(f)[:100])
            continue
        got = V(I, I.invoke(f, [LVTemp(t)], {}))
        M = T(P(n), cols, lambda i, j: sol(src, first + n * j + i))
        ck.same_t(lab + k + " at a time", got, tfn("meval", n, 1, [t / tf, lam(M), ZERO, P(ext)]), w)


def back(ck, p):
    I = start(p)
    f = func(p, "use_point")
    q = [q for q in f["ps"] if q["name"] == "sol"][0]
    s = I.symbolic(p.types[q["t"]], "sol")
    for k in ("u", "x", "lambda_dyn", "lambda_cr"):
        s.fields[k] = UserFn("s_" + k)
    for k, n in (("Q", NQ), ("lambda_q", NQ), ("lambda_ce", NCE)):
        s.fields[k] = T.base("sol." + k, n, 1)
    r, w = call(I, p, "use_point", sol=s)
    lab = "ocpsol_to_nlpsol: "
    understood(ck, lab, I, w)
    if not isinstance(r, Rec) or any(not isinstance(r.fields.get(k), T) for k in ("x", "lambda", "zl", "zu")):
        return ck.undecided(lab + "point", w, repr(r)[:100])
    tf = I.scalar(s.fields["tf"])
    x, l = r.fields["x"], r.fields["lambda"]
    ck.same(lab + "size of x", x.rows, NVAR, w)
    ck.same(lab + "size of lambda", l.rows, NCON, w)
    ck.same(lab + "final time", x.at(ZERO, ZERO), tf, w)
    for k in range(NQ):
        ck.same(lab + "integral %d" % k, x.at(Q0 + k, ZERO), el("sol.Q", P(k)), w)
        ck.same(lab + "multiplier of integral %d" % k, l.at(QC + k, ZERO), el("sol.lambda_q", P(k)), w)
    for k in range(NCE):
        ck.same(lab + "multiplier of end constraint %d" % k, l.at(CE + k, ZERO), el("sol.lambda_ce", P(k)), w)
    h, NN, fix = OC.some_nodes()
    for k in range(NX):
        ck.same(lab + "state %d of the last node" % k, subst(x.at(X0 + NX * NN + k, ZERO), fix), subst(tfn("s_x", NX, 1, [tf * tau(NN)]).at(P(k), ZERO), fix), w)
    for nm, v, first, n, f, size in (("state", x, X0, NX, "x", NN), ("input", x, U0, NU, "u", NN), ("multiplier of the dynamics", l, ZERO, NX, "lambda_dyn", NN),
                                     ("multiplier of running constraints", l, CR, NCR, "lambda_cr", NN)):
        for k in range(n):
            gi = {}
            i = gidx("a", size, gi)
            ck.same(lab + "%s %d of a node" % (nm, k), subst(v.at(first + n * i + k, ZERO), fix), subst(tfn("s_" + f, n, 1, [tf * tau(i)]).at(P(k), ZERO), fix), w, gi=gi)
    for k in ("zl", "zu"):
        gi = {}
        z = r.fields[k]
        ck.same(lab + "size of " + k, z.rows, NVAR, w)
        ck.same(lab + k, z.at(gidx("v", NVAR, gi), ZERO), ZERO, w, gi=gi)
