"""Obligations on the Ipopt adapter (properties I..): the problem functions are unknown (uninterpreted)."""
from sa.framework import *
from sa.interp import Program, Interp, LV, stored, first_pos

N, M = sym("nlp.n", True), sym("nlp.m", True)
tm.SIZE_SYMS.update(("nlp.n", "nlp.m"))
DEFS = ["-I/usr/include/coin"]


def opaque_problem(p):
    """handlers for the member functions of the unknown problem"""
    def args(I, a):
        out = []
        for x in a:
            out += I.flat(I.ev0(x))
        return out

    def size(s):
        return lambda I, e, o, a: s

    def vec(name, n):
        return lambda I, e, o, a: T.base("nlp." + name, n, ONE)

    def fscalar(I, e, o, a):
        return fn("nlp.f", *args(I, a))

    def fvec(I, e, o, a):
        return tfn("nlp.g", M, ONE, args(I, a))

    def mat(name, r, c):
        def h(I, e, o, a):
            x = args(I, a)
            t = tfn("nlp." + name, r, c, x)
            # entries that are not stored are zero; which ones are stored does not depend on the point
            return T(r, c, lambda i, j: ite(stored((name,), i, j), t.at(i, j), ZERO), meta={"comp": bsym("nlp.%s.compressed" % name), "pat": frozenset((name,))})
        return h
    h = {"n": size(N), "m": size(M), "xl": vec("xl", N), "xu": vec("xu", N), "gl": vec("gl", M), "gu": vec("gu", M),
         "f": fscalar, "g": fvec, "df_dx": mat("df", ONE, N), "dg_dx": mat("dg", M, N),
         "d2f_dx2": mat("d2f", N, N), "d2g_dx2": mat("d2g", N, N)}
    out = {"Ipopt::IpoptData::iter_count": lambda I, e, o, a: fn("ip.iter")}
    tm.INT_SYMS.add("ip.iter")
    for k, v in h.items():
        for c in ("UNlp", "UHNlp", "URNlp"):
            out["%s::%s" % (c, k)] = v
    return out


def classes(p):
    out = []
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("feedback::IpoptNLP") and "ref" not in t and t.get("rec") in p.records:
            if not any(t["rec"] == x["rec"] for x in out):
                out.append(t)
    if not out:
        raise AnchorMissing("class IpoptNLP")
    return out


def method(p, t, name):
    for f in p.funcs.values():
        if f.get("rec") == t["rec"] and f["name"] == name and f.get("body"):
            return f
    raise AnchorMissing("IpoptNLP::" + name)


def label(p, t):
    s = t["s"]
    a = "with Hessian" if "UHNlp" in s else "without Hessian"
    return a + (", stored by rows" if "URNlp" in s else "")


def start(p):
    I = Interp(p, models=opaque_problem(p))
    I.strict = True
    I.dims = {}
    return I


ROLES = {   # parameters by position of the Ipopt interface
    "get_nlp_info": ("n", "m", "nnz_jac", "nnz_h", "style"),
    "get_bounds_info": ("n", "x_l", "x_u", "m", "g_l", "g_u"),
    "get_starting_point": ("n", "init_x", "x", "init_z", "z_L", "z_U", "m", "init_lambda", "lambda"),
    "eval_f": ("n", "x", "new_x", "obj"),
    "eval_grad_f": ("n", "x", "new_x", "grad"),
    "eval_g": ("n", "x", "new_x", "m", "g"),
    "eval_jac_g": ("n", "x", "new_x", "m", "nele", "iRow", "jCol", "values"),
    "eval_h": ("n", "x", "new_x", "sigma", "m", "lambda", "new_lambda", "nele", "iRow", "jCol", "values"),
    "finalize_solution": ("status", "n", "x", "z_L", "z_U", "m", "g", "lambda", "obj", "data", "cq"),
}


def run_method(p, t, name, this=None, null=(), I=None):
    """execute a member on an arbitrary object; returns the interpreter and the result"""
    f = method(p, t, name)
    I = I or start(p)
    if "this" not in I.st.roots:
        I.st.roots["this"] = this if this is not None else I.symbolic(t, "this")
    av = []
    NN = sym("nnz", True)
    for q, r in zip(f["ps"], ROLES[name]):
        ty = p.types[q["t"]]
        nm = "arg." + r
        if ty.get("k") == "ptr":
            if r in null:
                av.append(Opq("nullptr"))
                continue
            if r in ("data", "cq"):
                av.append(Opq("ip." + r))
                continue
            n = {"m": M, "g_l": M, "g_u": M, "lambda": M, "g": M, "iRow": NN, "jCol": NN, "values": NN}.get(r, N)
            if r in ("iRow", "jCol"):
                tm.INT_SYMS.add("buf." + r)
            I.st.roots["buf." + r] = T.base("buf." + r, n, ONE)
            I.st.roots[nm] = RefV(LV("buf." + r))
            av.append(I.st.roots[nm])
            continue
        I.st.roots[nm] = {"n": N, "m": M}.get(r) if r in ("n", "m") and name != "get_nlp_info" else I.symbolic(ty, r)
        av.append(LV(nm))
    r = I.run(f, this=LV("this"), argvals=av)
    return I, r, f


def buf(I, r):
    return I.tens(I.st.roots["buf." + r])


# ------------------------------------------------------------------ solve_nlp_ipopt
def app_models():
    def smart(I, e, args):
        if not args:
            return Opq("nullptr")
        v = I.ev(args[0])
        return v if isinstance(v, RefV) else I.opq("smart", v)

    def options(I, e, o, a):
        return Opq("ip.options")

    def setter(kind):
        def h(I, e, o, a):
            I.events.append(("option", kind, I.ev(a[0]), I.ev(a[1]), I.st.pc, I.prog.loc(e)))
            return TRUE
        return h

    def init(I, e, o, a):
        I.events.append(("initialize", I.st.pc, I.prog.loc(e)))
        return sym("ip.return", True)

    def optimize(I, e, o, a):
        v = I.ev(a[0])
        I.events.append(("optimize", v, v.lv.get(I) if isinstance(v, RefV) else v, I.st.pc, I.prog.loc(e)))
        if isinstance(v, RefV):
            r = v.lv.get(I)
            for k, x in list(r.fields.items()):
                if isinstance(x, Rec) and "status" in x.fields:
                    new = {}
                    for q, y in x.fields.items():
                        if isinstance(y, T):
                            new[q] = T.base("ipopt." + q, N if q != "lambda" else M, ONE)
                        else:
                            tm.INT_SYMS.update(("ipopt.status", "ipopt.iter"))
                            new[q] = sym("ipopt." + q, q in ("status", "iter"))
                    # finalize_solution is called unless Ipopt cannot start
                    v.lv.sub(k).set(I, merge(bsym("ipopt.finalized"), Rec(x.ty, new, x.rec), x))
        return sym("ip.return", True)
    out = {"ctor:Ipopt::SmartPtr": smart, "Ipopt::IpoptApplication::Options": options,
           "Ipopt::IpoptApplication::Initialize": init, "Ipopt::IpoptApplication::OptimizeTNLP": optimize}
    for k in ("String", "Integer", "Numeric"):
        out["Ipopt::OptionsList::Set%sValue" % k] = setter(k)
        out["Ipopt::OptionsList::Set%sValueIfUnset" % k] = setter(k + "IfUnset")
    return out


def solve_fns(p):
    out = [f for f in p.funcs.values() if f["name"] == "solve_nlp_ipopt" and f.get("body")]
    if not out:
        raise AnchorMissing("solve_nlp_ipopt")
    return out


def run_solve(p, f):
    I = start(p)
    I.models.update(app_models())
    av = []
    for q in f["ps"]:
        nm = "arg." + q["name"]
        I.st.roots[nm] = I.symbolic(p.types[q["t"]], q["name"])
        av.append(LV(nm))
    r = I.run(f, argvals=av)
    return I, r


# ------------------------------------------------------------------ obligations
def enum_values(p, suffix):
    for t in p.types:
        if t.get("k") == "enum" and t.get("ev") and suffix in (t.get("name"), t.get("s", "").split("feedback::")[-1]):
            return {k: int(v) for k, v in t["ev"].items()}
    raise AnchorMissing("enum " + suffix)


def no_other_effects(ck, lab, I, f, this0, where, keep=(), members=()):
    """the object is left alone, except for the named members"""
    this = I.st.roots["this"]
    for k, v in this0.fields.items():
        if k in members or isinstance(v, Rec):
            continue
        w = this.fields[k]
        if val_equal(v, w):
            ck.holds("%s: member %s unchanged" % (lab, k), where)


def lin(name, *args):
    return fn("nlp." + name, *args)


def buffers(I, names):
    return {r: buf(I, r) for r in names}


def xarg(name="x"):
    return lam(T.base("buf." + name, N if name == "x" else M, ONE))


BIG = 10 ** 19
POOL = [-10 ** 30, -3 * 10 ** 19, -5 * 10 ** 18, -3 * 10 ** 9, -2500, -1, 0, 2, 1700, 4 * 10 ** 9, 5 * 10 ** 18, 3 * 10 ** 19, 10 ** 30]


def pool(*names):
    return {n: (lambda r: r.choice(POOL)) for n in names}


def cases(t):
    """maxima and minima of two numbers as case distinctions"""
    def at(a):
        if a[0] == "ite":
            return ite(a[1], go(a[2]), go(a[3]))
        if a[0] not in ("max", "min"):
            return tm.from_atom(a)
        r = a[1][0]
        for y in a[1][1:]:
            r = ite(ge(r - y, 0), r, y) if a[0] == "max" else ite(ge(r - y, 0), y, r)
        return r

    def go(x):
        out = ZERO
        for (b, f), c in x.terms.items():
            if b:
                return x
            q = P(c)
            for a, e in f:
                q = q * tm._pow_poly(at(a), e)
            out = out + q
        return out
    return T(t.rows, t.cols, lambda i, j: go(t.at(i, j)))


def finishing(ck, I, lab, where):
    u = [x for x in I.unsupported if "SourceLocExpr" not in x[0] and "PredefinedExpr" not in x[0]]
    if u:
        ck.undecided("%s: constructs outside the model" % lab, where, str(u[:3]))


def ok(ck, lab, r, where):
    if isinstance(r, Bool):
        ck.same("%s: reports success" % lab, r, TRUE, where)
    else:
        ck.undecided("%s: reports success" % lab, where, repr(r)[:80])


def I01(ck, p):
    for t in classes(p):
        L = label(p, t)

        def lab(s):
            return "%s: %s" % (L, s)
        I, r, f = run_method(p, t, "get_nlp_info")
        w = p.loc(f)
        ok(ck, lab("get_nlp_info"), r, w)
        ck.same(lab("number of variables"), I.scalar(I.st.roots["arg.n"]), N, w)
        ck.same(lab("number of constraints"), I.scalar(I.st.roots["arg.m"]), M, w)
        finishing(ck, I, lab("get_nlp_info"), w)
        I, r, f = run_method(p, t, "get_bounds_info")
        w = p.loc(f)
        ok(ck, lab("get_bounds_info"), r, w)
        for b, s, n in (("x_l", "xl", N), ("x_u", "xu", N), ("g_l", "gl", M), ("g_u", "gu", M)):
            src = T.base("nlp." + s, n, ONE)
            got = cases(buf(I, b))
            finite = lambda i, j: and_(gt(src.at(i), -BIG), gt(BIG - src.at(i), 0))
            ck.same_t(lab("finite bounds %s are passed on" % s), got, src, w, under=finite, fixed=pool("nlp." + s))
            gi = {}
            i = gidx("a", n, gi)
            x, y = src.at(i), got.at(i)
            ck.same(lab("%s = -inf is no bound for Ipopt" % s), le(y, -BIG), TRUE, w, under=le(x, -BIG), gi=gi, fixed=pool("nlp." + s))
            ck.same(lab("%s = inf is no bound for Ipopt" % s), ge(y, BIG), TRUE, w, under=ge(x, BIG), gi=gi, fixed=pool("nlp." + s))
        finishing(ck, I, lab("get_bounds_info"), w)
        I, r, f = run_method(p, t, "get_starting_point")
        w = p.loc(f)
        ok(ck, lab("get_starting_point"), r, w)
        sol = sol_of(I.st.roots["this"])
        for b, s, c, n in (("x", "x", "init_x", N), ("z_L", "zl", "init_z", N), ("z_U", "zu", "init_z", N), ("lambda", "lambda", "init_lambda", M)):
            src = sol.fields[s]
            c = bsym(c)
            want = T(n, ONE, lambda i, j: ite(c, src.at(i), el("buf." + b, i)))
            ck.same_t(lab("starting point: %s" % b), buf(I, b), want, w)
        finishing(ck, I, lab("get_starting_point"), w)
        I, r, f = run_method(p, t, "eval_f")
        w = p.loc(f)
        ok(ck, lab("eval_f"), r, w)
        ck.same(lab("objective at the requested point"), I.scalar(I.st.roots["arg.obj"]), lin("f", xarg()), w)
        finishing(ck, I, lab("eval_f"), w)
        I, r, f = run_method(p, t, "eval_grad_f")
        w = p.loc(f)
        ok(ck, lab("eval_grad_f"), r, w)
        want = T(N, ONE, lambda i, j: ite(stored(("df",), ZERO, i), lin("df", xarg(), i), ZERO))
        ck.same_t(lab("gradient at the requested point"), buf(I, "grad"), want, w)
        finishing(ck, I, lab("eval_grad_f"), w)
        I, r, f = run_method(p, t, "eval_g")
        w = p.loc(f)
        ok(ck, lab("eval_g"), r, w)
        ck.same_t(lab("constraints at the requested point"), buf(I, "g"), T(M, ONE, lambda i, j: lin("g", xarg(), i)), w)
        finishing(ck, I, lab("eval_g"), w)
        ck.analysed["members of %s" % t["s"].replace("smooth::feedback::", "")] = len(ROLES)


def sol_of(this):
    for k, v in this.fields.items():
        if isinstance(v, Rec) and "status" in v.fields and "lambda" in v.fields:
            return v
    raise AnchorMissing("the solution member of IpoptNLP")


def member(this, pred_):
    c = [k for k, v in this.fields.items() if pred_(v)]
    return c[0] if len(c) == 1 else None


def stored_at(b, out):
    """the positions whose being stored the condition depends on"""
    if b.kind in ("and", "or"):
        for x in b.a:
            stored_at(x, out)
    elif b.kind == "not":
        stored_at(b.a, out)
    elif b.kind == "exists":
        stored_at(b.b, out)
    elif b.kind == "pred" and b.a.startswith("stored:"):
        out[tuple(x.key for x in b.b)] = b.b
    return out


def sequence(t):
    """the writes of one sweep over the stored entries of a matrix: (index, guard, value) as functions of (row, column)"""
    us = [u for u in t.upds]
    if len(us) != 1 or us[0].mode != "set" or len(us[0].binders) != 2:
        return None
    u = us[0].rename()
    args = stored_at(u.guard, {})
    if len(args) != 1:
        return None
    r, c = next(iter(args.values()))
    names = {("bv", v) for v, _, _ in u.binders}
    if {r, c} != {bv(v) for v, _, _ in u.binders}:
        return None
    gr, gc = "stR", "stC"
    m = {}
    for v, lo, hi in u.binders:
        if bv(v) == r:
            m[("bv", v)] = bv(gr)
            rr = (lo, hi)
        else:
            m[("bv", v)] = bv(gc)
            rc = (lo, hi)
    tm.RANGES[gr], tm.RANGES[gc] = rr, rc
    return subst(u.idx[0], m), subst_b(u.guard, m), subst(u.val, m), rr, rc


def ranks(pat, rows, cols):
    r, c = bv("stR"), bv("stC")
    k, l = tm.fresh("r"), tm.fresh("r")
    one = lambda i, j: ite(stored(pat, i, j), ONE, ZERO)
    a = tm.sum_(k, ZERO, r, one(bv(k), c)) + tm.sum_(l, ZERO, c, tm.sum_(k, ZERO, rows, one(bv(k), bv(l))))
    b = tm.sum_(k, ZERO, c, one(r, bv(k))) + tm.sum_(l, ZERO, r, tm.sum_(k, ZERO, cols, one(bv(l), bv(k))))
    return a, b


def triplets(ck, lab, pat, rows, cols, sr, sc, sv, want_r, want_c, want_v, style, under, w):
    sq = [sequence(x) for x in (sr, sc, sv)]
    nm = ("row indices", "column indices", "values")
    bad = [n for n, s in zip(nm, sq) if s is None]
    if bad:
        return ck.undecided("%s: %s written in one sweep over the stored entries" % (lab, ", ".join(bad)), w, "another form of loop")
    tm.RANGES["stR"], tm.RANGES["stC"] = (ZERO, rows), (ZERO, cols)
    gi = {"stR": P(rows), "stC": P(cols)}
    st = stored(pat, bv("stR"), bv("stC"))
    und = and_(st, under)
    kw = {"gi": gi}
    for n, s, want in zip(nm, sq, (want_r + style, want_c + style, want_v)):
        if s[3] != (ZERO, P(rows)) or s[4] != (ZERO, P(cols)):
            ck.undecided("%s: %s cover the matrix" % (lab, n), w, "range of the sweep %r %r" % (s[3], s[4]))
        ck.same("%s: %s exactly for the stored entries" % (lab, n), s[1], st, w, **kw)
        ck.same("%s: %s" % (lab, n), s[2], want, w, under=und, **kw)
    ck.same("%s: row and column of an entry are at the same place" % lab, sq[0][0], sq[1][0], w, under=und, **kw)
    ck.same("%s: the value of an entry is at the place of its row and column" % lab, sq[2][0], sq[0][0], w, under=und, **kw)
    a, b = ranks(pat, rows, cols)
    idx = sq[0][0]
    if idx == a or idx == b or bdd.equal(idx, a, und) is True or bdd.equal(idx, b, und) is True:
        ck.holds("%s: the places are 0, 1, ..., number of stored entries - 1" % lab, w, "normal form")
    else:
        # neither order: report it only if it provably differs from both
        ck.same("%s: the places are 0, 1, ..., number of stored entries - 1" % lab, idx, a, w, under=und, **kw)


def count(pat, rows, cols):
    k, l = tm.fresh("c"), tm.fresh("c")
    return tm.sum_(k, ZERO, rows, tm.sum_(l, ZERO, cols, ite(stored(pat, bv(k), bv(l)), ONE, ZERO)))


def I02(ck, p):
    st = {"C_STYLE": 0, "FORTRAN_STYLE": 1}
    for t in classes(p):
        L = label(p, t)
        hess = "UHNlp" in t["s"]
        I0 = start(p)
        this = I0.symbolic(t, "this")
        uh = member(this, lambda v: isinstance(v, Bool))
        runs = [("use of the Hessian on", TRUE), ("use of the Hessian off", FALSE)] if hess else [("", FALSE)]
        for un, uv in runs:
            lab = L + (", " + un if un else "")
            th = this.set(uh, uv) if uh else this
            I, r, f = run_method(p, t, "get_nlp_info", this=th)
            w = p.loc(f)
            after = I.st.roots["this"]
            ck.same(lab + ": number of Jacobian entries", I.scalar(I.st.roots["arg.nnz_jac"]), count(("dg",), M, N), w)
            style = I.scalar(I.st.roots["arg.style"])
            if style not in (ZERO, ONE):
                ck.undecided(lab + ": index style", w, repr(style))
                style = ZERO
            nh = I.scalar(I.st.roots["arg.nnz_h"])
            ck.same(lab + ": number of Hessian entries", nh, count(("d2f", "d2g"), N, N) if hess and uv.is_true() else ZERO, w)
            finishing(ck, I, lab + ": get_nlp_info", w)
            I1, r1, f = run_method(p, t, "eval_jac_g", this=after, null=("values",))
            I2, r2, _ = run_method(p, t, "eval_jac_g", this=after, null=("iRow", "jCol"))
            w = p.loc(f)
            ok(ck, lab + ": eval_jac_g (structure)", r1, w)
            ok(ck, lab + ": eval_jac_g (values)", r2, w)
            R, C = bv("stR"), bv("stC")
            triplets(ck, lab + ": Jacobian", ("dg",), M, N, buf(I1, "iRow"), buf(I1, "jCol"), buf(I2, "values"),
                     R, C, lin("dg", xarg(), R, C), style, TRUE, w)
            finishing(ck, I1, lab + ": eval_jac_g", w)
            finishing(ck, I2, lab + ": eval_jac_g", w)
            if not hess or not uv.is_true():
                continue
            # the values left by earlier evaluations are arbitrary
            fresh_ = {k: (T.base("this." + k, v.rows, v.cols, v.meta) if isinstance(v, T) and "pat" in v.meta else v) for k, v in after.fields.items()}
            used = Rec(after.ty, fresh_, after.rec)
            I1, r1, f = run_method(p, t, "eval_h", this=used, null=("values",))
            I2, r2, _ = run_method(p, t, "eval_h", this=used, null=("iRow", "jCol"))
            w = p.loc(f)
            ok(ck, lab + ": eval_h (structure)", r1, w)
            ok(ck, lab + ": eval_h (values)", r2, w)
            if I1.st is None or I2.st is None:
                ck.undecided(lab + ": eval_h", w, "does not return")
                continue
            val = ite(stored(("d2f",), R, C), sym("sigma") * lin("d2f", xarg(), R, C), ZERO) + \
                ite(stored(("d2g",), R, C), lin("d2g", xarg(), xarg("lambda"), R, C), ZERO)
            # an upper triangular Hessian is provided, Ipopt reads the lower triangle
            triplets(ck, lab + ": Hessian", ("d2f", "d2g"), N, N, buf(I1, "iRow"), buf(I1, "jCol"), buf(I2, "values"),
                     C, R, val, style, ge(C - R, 0), w)
            finishing(ck, I1, lab + ": eval_h", w)
            finishing(ck, I2, lab + ": eval_h", w)
        ck.analysed["members of %s" % t["s"].replace("smooth::feedback::", "")] = len(ROLES)


STATUS = {"SUCCESS": "Optimal", "STOP_AT_ACCEPTABLE_POINT": "Optimal", "MAXITER_EXCEEDED": "MaxIterations",
          "CPUTIME_EXCEEDED": "MaxTime", "WALLTIME_EXCEEDED": "MaxTime", "LOCAL_INFEASIBILITY": "PrimalInfeasible", "DIVERGING_ITERATES": "DualInfeasible"}


def text(s):
    return StrV(s).num()


def may_be(v, s):
    """an option name that can be this one (and is not one of the caller's)"""
    if isinstance(v, StrV):
        return v.s == s
    return isinstance(v, Poly) and not any(a[0] == "el" for a in tm.atoms_of(v))


def strof(v):
    return v.s if isinstance(v, StrV) else None


def I03(ck, p):
    sv = enum_values(p, "NLPSolution::Status")
    rv = enum_values(p, "SolverReturn")
    for t in classes(p):
        L = label(p, t)

        def lab(s):
            return "%s: %s" % (L, s)
        I, r, f = run_method(p, t, "finalize_solution")
        w = p.loc(f)
        s = sol_of(I.st.roots["this"])
        got = I.scalar(s.fields["status"])
        for nm, v in sorted(rv.items(), key=lambda x: x[1]):
            g = subst(got, {("sym", "status"): P(v)})
            ck.same(lab("Ipopt's %s is reported as %s" % (nm, STATUS.get(nm, "Unknown"))), g, P(sv[STATUS.get(nm, "Unknown")]), w)
        for fld, b, n in (("x", "x", N), ("zl", "z_L", N), ("zu", "z_U", N), ("lambda", "lambda", M)):
            ck.same_t(lab("returned %s" % fld), I.tens(s.fields[fld]), T.base("buf." + b, n, ONE), w)
        ck.same(lab("returned objective"), I.scalar(s.fields["objective"]), sym("obj"), w)
        it = I.scalar(s.fields["iter"])
        ck.same(lab("returned iteration count"), it, fn("ip.iter"), w)
        finishing(ck, I, lab("finalize_solution"), w)
    for f in solve_fns(p):
        w = p.loc(f)
        L = "with Hessian" if any("UHNlp" in p.types[q["t"]].get("s", "") for q in f["ps"]) else "without Hessian"

        def lab(s):
            return "solve_nlp_ipopt %s: %s" % (L, s)
        I, r = run_solve(p, f)
        ev = I.events
        opts = [(n, e) for n, e in enumerate(ev) if e[0] == "option"]
        run_ = [(n, e) for n, e in enumerate(ev) if e[0] == "optimize"]
        ini = [(n, e) for n, e in enumerate(ev) if e[0] == "initialize"]
        byname = {}
        for q in f["ps"]:
            s = p.types[q["t"]].get("s", "")
            byname["Integer" if "int>" in s.replace(" ", "") else "Numeric" if "double>" in s else "String" if "vector" in s else "ws" if "optional" in s else "nlp"] = q["name"]
        if len(run_) != 1 or len(ini) != 1 or not isinstance(run_[0][1][2], Rec):
            ck.undecided(lab("runs Ipopt once"), w, "%d runs, %d initializations" % (len(run_), len(ini)))
            continue
        n_run, e_run = run_[0]
        n_ini, e_ini = ini[0]
        ck.same(lab("Ipopt is always run"), e_run[3], TRUE, w)
        ck.same(lab("Ipopt is always initialized"), e_ini[1], TRUE, w)
        ck.rule(lab("initialized before it is run"), n_ini < n_run, e_run[4], "OptimizeTNLP is called before Initialize")
        late = [e for n, e in opts if n > n_ini]
        ck.rule(lab("all options are set before initialization"), not late, late[0][5] if late else w, "options set afterwards have no effect on the linear solver and output setup")
        # the caller's options are applied last
        user = {}
        for n, e in opts:
            if isinstance(e[2], Poly):
                for kind in ("Integer", "String", "Numeric"):
                    if any(a[0] == "el" and a[1] == byname.get(kind, "?") + ".0" for a in tm.atoms_of(e[2])):
                        user.setdefault(kind, []).append((n, e))
        for kind in ("Integer", "String", "Numeric"):
            us = user.get(kind, [])
            nm = byname.get(kind, "?")
            if len(us) != 1:
                ck.undecided(lab("every %s option of the caller is passed on" % kind.lower()), w, "%d places" % len(us)) if us or I.unsupported else \
                    ck.violated(lab("every %s option of the caller is passed on" % kind.lower()), w, "no option of %s reaches Ipopt" % nm)
                continue
            n, e = us[0]
            at = [a for a in tm.atoms_of(e[2]) if a[0] == "el" and a[1] == nm + ".0"]
            i = at[0][2][0]
            ck.same(lab("%s options: the key is the caller's" % kind.lower()), e[2], el(nm + ".0", i), e[5])
            ck.same(lab("%s options: the value is the caller's" % kind.lower()), I.scalar(e[3]), el(nm + ".1", i), e[5])
            ck.same(lab("%s options: every option is passed on" % kind.lower()), e[4], TRUE, e[5])
            ck.rule(lab("%s options: passed with the setter of their type" % kind.lower()), e[1] == kind, e[5], "set by Set%sValue" % e[1])
            rng = [tm.RANGES.get(b) for b in tm.free_bvs(i)]
            full = i.key in {bv(b).key for b in tm.free_bvs(i)} and rng and rng[0] == (ZERO, sym(nm + ".size", True))
            if full:
                ck.holds(lab("%s options: all of them" % kind.lower()), e[5], "range of the loop")
            else:
                ck.undecided(lab("%s options: all of them" % kind.lower()), e[5], "range %r" % (rng,))
            after = [x for k, x in opts if k > n and strof(x[2]) is not None and "IfUnset" not in x[1]]
            ck.rule(lab("defaults do not override %s options" % kind.lower()), not after, after[0][5] if after else e[5],
                    "the default for %s is set after the caller's options" % (strof(after[0][2]) if after else ""))
        # Hessian
        th = e_run[2]
        uh = member(th, lambda v: isinstance(v, Bool))
        nm = byname.get("String", "?")
        x = tm.fresh("o")
        tm.RANGES[x] = (ZERO, sym(nm + ".size", True))
        HA, EX = text("hessian_approximation"), text("exact")
        asks = lambda i: and_(eq(el(nm + ".0", i), HA), eq(el(nm + ".1", i), EX))
        given = exists(x, ZERO, sym(nm + ".size", True), eq(el(nm + ".0", bv(x)), HA))
        if uh is None:
            ck.undecided(lab("the Hessian is used iff the caller asks for exact Hessians"), w, "no flag")
        else:
            got = th.fields[uh]
            size = sym(nm + ".size", True)
            first = and_(given, eq(el(nm + ".1", first_pos(x, size, eq(el(nm + ".0", bv(x)), HA))), EX))
            y = tm.fresh("o")
            twice = exists(x, ZERO, size, exists(y, ZERO, bv(x), and_(eq(el(nm + ".0", bv(x)), HA), eq(el(nm + ".0", bv(y)), HA))))
            # which of several values of one option counts is not specified
            want = exists(x, ZERO, size, asks(bv(x)))
            for v in (first, want):
                if bdd.equal(got, v, TRUE) is True:
                    ck.holds(lab("the Hessian is used iff the caller asks for exact Hessians"), w, "normal form")
                    break
            else:
                ck.same(lab("the Hessian is used iff the caller asks for exact Hessians"), got, want, w, under=not_(twice))
        ha = [e for n, e in opts if may_be(e[2], "hessian_approximation")]
        isha = lambda e: eq(I.scalar(e[2]), HA)
        c = or_(*[and_(e[4], isha(e), eq(I.scalar(e[3]), text("limited-memory"))) for e in ha])
        other = or_(*[and_(e[4], isha(e), not_(eq(I.scalar(e[3]), text("limited-memory")))) for e in ha])
        at = ha[0][5] if ha else w
        ck.same(lab("no exact Hessians unless the caller asks for them"), c, TRUE, at, under=not_(given))
        ck.same(lab("no other default for the Hessian approximation when the caller gives none"), other, FALSE, at, under=not_(given))
        # warm start
        ws = byname.get("ws")
        has = bsym(ws + ".has")
        wsp = [e for n, e in opts if may_be(e[2], "warm_start_init_point")]
        sets = lambda s: or_(*[and_(e[4], eq(I.scalar(e[2]), text("warm_start_init_point")), eq(I.scalar(e[3]), text(s))) for e in wsp])
        ck.same(lab("Ipopt uses the initial multipliers with a warm start"), sets("yes"), TRUE, w, under=has)
        ck.same(lab("Ipopt does not ask for initial multipliers without a warm start"), sets("yes"), FALSE, w, under=not_(has))
        s0 = sol_of(th)
        for fld in ("x", "zl", "zu", "lambda"):
            src = ws + ".val." + fld
            sz = sym(src + ".rows", True)
            tm.SIZE_SYMS.add(src + ".rows")
            ck.same_t(lab("warm start: %s" % fld), tassume(I.tens(s0.fields[fld]), has), T.base(src, sz, ONE), w)
        ck.same_t(lab("without a warm start the initial point is zero"), tassume(I.tens(s0.fields["x"]), not_(has)), tconst(N, ONE, ZERO), w)
        # result
        st0 = I.scalar(s0.fields["status"])
        ck.same(lab("status before Ipopt reports one"), st0, P(sv["Unknown"]), w)
        if isinstance(r, Rec):
            fin = bsym("ipopt.finalized")
            for fld, v in r.fields.items():
                nmf = "ipopt." + fld
                if isinstance(v, T) or isinstance(I_t(v), T):
                    ck.same_t(lab("returned %s is Ipopt's" % fld), tassume(I.tens(v), fin), T.base(nmf, N if fld != "lambda" else M, ONE), w)
                else:
                    ck.same(lab("returned %s is Ipopt's" % fld), I.scalar(v), sym(nmf, fld in ("status", "iter")), w, under=fin)
            ck.same(lab("returned status when Ipopt cannot solve"), I.scalar(r.fields["status"]), P(sv["Unknown"]), w, under=not_(fin))
        else:
            ck.undecided(lab("result"), w, repr(r)[:100])
        finishing(ck, I, lab(""), w)
    ck.analysed["instantiations of solve_nlp_ipopt"] = len(solve_fns(p))


def I_t(v):
    return v


def tassume(t, c):
    a = lambda x: tm.assume_all(x, c)
    return T(a(t.rows), a(t.cols), lambda i, j: a(t.at(i, j)))


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = Program(extract("ipopt", defs=DEFS))
    try:
        {"I01": I01, "I02": I02, "I03": I03}[pid](ck, p)
    except AnchorMissing as e:
        ck.undecided("analysis", "", "cannot find: %s" % e)
    except Exception as e:          # noqa
        ck.undecided("analysis", "", "not analysable: %r %s" % (e, traceback.format_exc(limit=-4)))
    return ck
