"""Obligations on the collocation mesh itself (properties H01..): any number of intervals, any degrees, any node of the underlying quadrature"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp, RefV, Seq, VecV, Closure, ZipV, CountV, IterV
from sa import smooth
from .colloc import zip_h, iota
from .ocp import Part, mapped

_p = {}
V = smooth.V
CLS = "smooth::feedback::Mesh"
KMIN, KMAX = 2, 4                   # of the instance analysed (tu/mesh.cpp)


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("mesh", incs=("stub",)))
    return _p["p"]


# ------------------------------------------------------------------ the quadrature and its polynomials: unknown numbers
def sz(I, e, n=0):
    return [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, int)][n]


def elems(v):
    """the elements of an array of known length"""
    if isinstance(v, VecV):
        c = v.size.const()
        return None if c is None else [v.f(P(i)) for i in range(int(c))]
    return list(v.items) if isinstance(v, Seq) else None


def lgr(I, e, o, a):
    k = sz(I, e)
    return Seq([Seq([fn(nm, P(k), P(i)) for i in range(k)], "array") for nm in ("node", "weight")], "tuple")


def sm(t):
    return Rec("SM", {"t": t})


def sm_of(v):
    while isinstance(v, (LV, RefV)):
        v = v.lv if isinstance(v, RefV) else v.get(None)
    return v.fields["t"] if isinstance(v, Rec) and v.ty == "SM" else None


def basis(k, xs):
    return tfn("basis", k + 1, k + 1, xs)


def lagrange(I, e, o, a):
    xs = elems(V(I, a[0]))
    k = sz(I, e)
    return NotImplemented if xs is None or len(xs) != k + 1 else sm(basis(k, xs))


def derivatives(I, e, o, a):
    k, n = sz(I, e), sz(I, e, 1)
    b, xs = sm_of(V(I, a[0])), elems(V(I, a[1]))
    if b is None or xs is None:
        return NotImplemented
    return sm(tfn("bder", k + 1, n, [lam(b)] + xs))


def monomials(I, e, o, a):
    return sm(mono(sz(I, e), I.scalar(V(I, a[0])), I.scalar(V(I, a[1]))))


def mono(k, u, p):
    return T(ONE, P(k + 1), lambda i, j: fn("mono", u, p, j))


def block(I, e, o, a):
    t = sm_of(V(I, o))
    if t is None:
        return NotImplemented
    r0, c0 = [I.scalar(V(I, x)) for x in a]
    return sm(T(P(sz(I, e)), P(sz(I, e, 1)), lambda i, j: t.at(i + r0, j + c0)))


def product(I, e, o, a):
    x, y = sm_of(V(I, o if o is not None else a[0])), sm_of(V(I, a[-1]))
    return NotImplemented if x is None or y is None else sm(mul(x, y))


def mul(x, y):
    n = int(x.cols.const())
    return T(x.rows, y.cols, lambda i, j: sum((x.at(i, P(q)) * y.at(P(q), j) for q in range(n)), ZERO))


def row(I, e, o, a):
    v = V(I, o if o is not None else a[0])
    t = sm_of(v)
    if t is not None:
        return Rec("SMrow", {"t": t, "r": I.scalar(V(I, a[-1]))})
    if isinstance(v, Rec) and v.ty == "SMrow":
        return v.fields["t"].at(v.fields["r"], I.scalar(V(I, a[-1])))
    return NotImplemented


def data(I, e, o, a):
    """memory: a function of the position"""
    v = V(I, o)
    if isinstance(v, Rec) and v.ty == "SMrow":
        t, r = v.fields["t"], v.fields["r"]
        return Rec("ptr", {"m": VecV(t.rows * t.cols, lambda i: flat(t, P(i) + r * t.cols)), "t": t, "r": r})
    xs = elems(v)
    if xs is None:
        return NotImplemented
    return Rec("ptr", {"m": VecV(P(len(xs)), lambda i: pick(xs, P(i)))})


def flat(t, i):
    """element i of the rows of t one after the other"""
    c = int(t.cols.const())
    if t.rows == ONE:
        return t.at(ZERO, i)
    if i.const() is not None:
        i = int(i.const())
        return t.at(P(i // c), P(i % c))
    q, r = fn("idiv", i, P(c)), fn("mod", i, P(c))
    return t.at(q, r)


def pick(xs, i):
    c = i.const()
    if c is not None:
        return xs[int(c)] if 0 <= c < len(xs) else fn("outside", i)
    r = fn("outside", i)
    for n in range(len(xs) - 1, -1, -1):
        r = merge(eq(i, n), xs[n], r)
    return r


def span(I, e, a):
    v = V(I, a[0]) if a else None
    if len(a) < 2:
        return v if isinstance(v, VecV) else VecV(ZERO, lambda i: ZERO) if v is None else I.opq("span", v)
    if not isinstance(v, Rec) or v.ty != "ptr":
        return I.opq("span", v)
    return VecV(I.scalar(V(I, a[1])), v.fields["m"].f)


def emap(I, e, a):
    v = V(I, a[0])
    r, c = [I.scalar(V(I, x)) for x in a[1:3]]
    if not isinstance(v, Rec) or v.ty != "ptr":
        return T(r, c, lambda i, j: fn("outside", i, j))
    f = v.fields["m"].f
    rm = bool(I.prog.ty(e).get("rm"))
    t = v.fields.get("t")
    if rm and t is not None and t.cols == c:
        r0 = v.fields["r"]
        return T(r, c, lambda i, j: t.at(i + r0, j))
    return T(r, c, lambda i, j: f(i * c + j) if rm else f(i + j * r))


def each(I, e, o, a):
    """f(0), ..., f(N - 1)"""
    c = V(I, a[0])
    if not isinstance(c, Closure):
        return NotImplemented
    n = sz(I, e)
    ops = {}
    for i in c.ops:
        f = I.prog.funcs.get(i)
        t = f and f["ps"] and I.prog.types[f["ps"][0]["t"]]
        v = t and [x.get("v") for x in t.get("ta") or [] if "v" in x]
        if v:
            ops[v[0]] = i
    if sorted(ops) != list(range(n)):
        return NotImplemented
    for k in range(n):
        I.call_closure(c, [], argvals=[LVTemp(P(k))], node=e, fid=ops[k])
    return Opq("void")


# ------------------------------------------------------------------ views
class Take(Val):
    def __init__(self, n, drop):
        self.n, self.drop = n, drop


def adaptor(I, e, o, a):
    """view(range, arg), or what is to be applied to a range"""
    a = a[1:] if o is None and e.get("op") == "()" else a
    qn = e["fn"]["qn"]
    if "_Take" in qn or "_Drop" in qn:
        w = Take(I.scalar(V(I, a[-1])), "_Drop" in qn)
        return w if len(a) == 1 else apply_view(I, e, V(I, a[0]), w)
    fv = V(I, a[-1])
    return Part(fv) if len(a) == 1 else apply_view(I, e, V(I, a[0]), Part(fv))


def apply_view(I, e, r, w):
    if isinstance(r, CountV) and r.size is not None:
        c = r
        r = VecV(c.size, lambda i: c.start + P(i))
    if not isinstance(r, VecV):
        return NotImplemented
    if isinstance(w, Part):
        return mapped(I, r, w.f, e)
    if isinstance(w, Take):
        if w.drop:
            return VecV(maxof([r.size - w.n, ZERO]) if not tm.prove_ge0(r.size - w.n) else r.size - w.n, lambda i: r.f(P(i) + w.n))
        return VecV(w.n if tm.prove_ge0(r.size - w.n) else minof([r.size, w.n]), r.f)
    return NotImplemented


def pipe(I, e, o, a):
    if len(a) != 2:
        return NotImplemented
    r, w = [V(I, x) for x in a]
    if isinstance(w, Opq) and "reverse" in str(w.key).lower():
        if isinstance(r, CountV) and r.size is not None:
            c = r
            return VecV(c.size, lambda i: c.start + c.size - 1 - P(i))
        return VecV(r.size, lambda i: r.f(r.size - 1 - P(i))) if isinstance(r, VecV) else NotImplemented
    return apply_view(I, e, r, w)


def joined(I, e, o, a):
    """the elements of one range after the other"""
    r = V(I, a[-1])
    return Rec("join", {"v": r}) if isinstance(r, VecV) else NotImplemented


def search(I, e, o, a):
    """the last element not after t in a sorted range, the end of the range when there is none"""
    lv = I.lv(a[0])
    while isinstance(lv.get(I), RefV):
        lv = lv.get(I).lv
    v, cmp = lv.get(I), V(I, a[2])
    if not isinstance(v, VecV) or not isinstance(cmp, Closure):
        return NotImplemented
    t = V(I, a[1])
    le_ = lambda i: I.cond(le(I.scalar(V(I, I.invoke(cmp, [LVTemp(v.f(i)), LVTemp(t)], e))), 0))
    return IterV(lv, *found(v.size, le_))


def found(n, le_):
    w = tm.fresh("b")
    tm.RANGES[w] = (ZERO, n)
    c = le_(bv(w))
    return tm.sum_(w, ZERO, n, ite(c, ONE, ZERO)) - 1, exists(w, ZERO, n, c)


Q = "smooth::"
MODEL = {
    Q + "lgr_nodes": lgr, Q + "lagrange_basis": lagrange, Q + "polynomial_basis_derivatives": derivatives, Q + "monomial_derivative": monomials,
    Q + "StaticMatrix::block": block, Q + "StaticMatrix::operator*": product, "std::array::operator[]": row, "std::array::data": data,
    "std::ranges::views::_Join::operator()": joined, Q + "utils::binary_interval_search": search, "ctor:std::span": span, "ctor:Eigen::Map": emap, Q + "utils::static_for": each, Q + "utils::zip": zip_h,
    "std::ranges::views::_Iota::operator()": iota,
}
MODEL.update({"std::ranges::views::%s::operator()" % q: adaptor for q in ("_Transform", "_Take", "_Drop", "__adaptor::_RangeAdaptor")})
MODEL.update({q: pipe for q in ("std::ranges::views::operator|", "std::ranges::views::__adaptor::operator|", "std::ranges::operator|")})


# ------------------------------------------------------------------ the mesh
NI = sym("NI", True)
tm.SIZE_SYMS.update(("NI", "Ki", "ival", "rest", "Dt", "dim"))
tm.INT_SYMS.update(("Ki", "NI", "ival", "rest", "Dt", "dim"))
IV = sym("ival", True)


def Ki(i):
    return el("Ki", P(i))


def t0(i):
    return el("tau", P(i))


LEN = sym("len")                    # length of the interval ival
tm.POS_SYMS.add("len")


def start(p, k=None, last=None):
    """any mesh; with last given, its interval ival of degree k is (not) the last one"""
    I = Interp(p, models=dict(smooth.MODELS, **MODEL))
    I.ext = set()
    I.strict = True
    I.dims = {}
    I.unroll = 8
    r = fields(p)
    # interval ival has the degree k
    n, tau = NI, t0
    if last is not None:
        n = IV + 1 if last else IV + 2 + sym("rest", True)
        tau = (lambda i: merge(eq(i, IV), 1 - LEN, t0(i))) if last else (lambda i: merge(eq(i, IV + 1), t0(IV) + LEN, t0(i)))
    f = lambda i: Rec(r["ty"], {r["K"]: Ki(i) if k is None else merge(eq(i, IV), P(k), Ki(i)), r["tau"]: tau(P(i))})
    I.n, I.t0 = n, tau(IV)
    I.st.roots["this"] = Rec(CLS, {r["v"]: VecV(n, f)})
    return I


def fields(p):
    """members of the mesh, by their type"""
    if "fields" not in _p:
        rec = next((r for r in p.records.values() if r["qn"] == CLS or r.get("name") == "Mesh" and CLS in r.get("qn", "")), None)
        out = {}
        for f in (rec or {}).get("fields", []):
            t = p.types[f["t"]]
            if t.get("qn") == "std::vector":
                out["v"] = f["name"]
                et = p.types[t["ta"][0]["t"]]
                out["ty"] = et.get("s")
                for g in p.records[et["rec"]]["fields"]:
                    out["tau" if p.types[g["t"]]["k"] == "float" else "K"] = g["name"]
        if set(out) != {"v", "ty", "tau", "K"}:
            raise AnchorMissing("members of Mesh")
        _p["fields"] = out
    return _p["fields"]


def call(I, name, args, n=None):
    fs = [f for f in I.prog.funcs.values() if f["name"] == name and f.get("body") and f.get("cls") and CLS in f["full"] and "::operator()" not in f["full"] and (n is None or len(f["ps"]) == n)]
    if not fs:
        raise AnchorMissing("Mesh::" + name)
    f = fs[0]
    for q, v in zip(f["ps"], args):
        I.st.roots[q["name"]] = v
    r = I.run(f, this=LV("this"), argvals=[LV(q["name"]) for q in f["ps"]])
    return f, r


def bad(I):
    return [u for u in I.unsupported if "SourceLocExpr" not in u[0] and "PredefinedExpr" not in u[0]]


# ------------------------------------------------------------------ obligations
def tf(i=IV):
    return ite(ge(NI - i - 2, 0), t0(P(i) + 1), ONE)


def length():
    return tf() - t0(IV)


def nodes(k):
    return [fn("node", P(k), P(i)) for i in range(k)] + [ONE]


def weights(k):
    return [fn("weight", P(k), P(i)) for i in range(k)] + [ZERO]


def unscaled(k):
    return tfn("bder", k + 1, k + 1, [lam(basis(k, nodes(k)))] + nodes(k))


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = program()
    fields(p)
    {"H01": scaled, "H02": structure, "H03": evaluation}[pid](ck, p)
    return ck


HERE = ge(NI - IV - 1, 0)           # ival is one of the intervals
DEGREES = range(KMIN, KMAX + 2)


def understood(ck, lab, I, w):
    if bad(I):
        ck.undecided(lab + "constructs not understood", w, str(bad(I)[:3]))


def vec_same(ck, lab, w, got, want, under=TRUE):
    if not isinstance(got, VecV):
        return ck.undecided(lab + "values", w, repr(got))
    ck.same(lab + "number of values", got.size, P(len(want)), w, under=under)
    for j, x in enumerate(want):
        ck.same(lab + "value %d" % j, I_scalar(got.f(P(j))), x, w, under=under)


def I_scalar(v):
    while isinstance(v, (LV, LVTemp)):
        v = v.get(None)
    return v


def scaled(ck, p):
    for k in DEGREES:
        for last in (True, False):
            scaled1(ck, p, k, last)


def scaled1(ck, p, k, last):
    D = unscaled(k)
    for name in ("interval_nodes", "interval_weights", "all_nodes", "all_weights", "interval_diffmat_unscaled", "interval_diffmat", "interval_intmat"):
        every = name.startswith("all_")
        lab = "%s, %s interval, of degree %d: " % (name, "last" if last else "another", k)
        I = start(p, k, last)
        f, r = call(I, name, [] if every else [IV])
        w = p.loc(f)
        understood(ck, lab, I, w)
        if name.endswith(("nodes", "weights")):
            want = [I.t0 + LEN * (x + 1) / 2 for x in nodes(k)] if name.endswith("nodes") else [LEN * x / 2 for x in weights(k)]
            if every:
                v = r.fields["v"] if isinstance(r, Rec) and r.ty == "join" else None
                if v is None:
                    ck.undecided(lab + "values", w, repr(r))
                    continue
                ck.same(lab + "one part per interval", v.size, I.n, w)
                r = I_scalar(v.f(IV))
                want = want if last else want[:-1]
            vec_same(ck, lab, w, r, want)
            continue
        want = T(P(k + 1), P(k), lambda i, j: D.at(i, j) * 2 / LEN)
        if name.endswith("unscaled"):
            if not isinstance(r, Seq) or len(r.items) != 2:
                ck.undecided(lab + "values", w, repr(r))
                continue
            ck.same(lab + "factor", I.scalar(I_scalar(r.items[0])), P(2) / LEN, w)
            r = I_scalar(r.items[1])
            want = T(P(k + 1), P(k), D.at)
        elif name.endswith("intmat"):
            full = want
            want = inverse(T(P(k), P(k), lambda i, j: full.at(i + 1, j)))
        if not isinstance(r, T):
            ck.undecided(lab + "values", w, repr(r))
            continue
        ck.same(lab + "rows", r.rows, want.rows, w)
        ck.same(lab + "columns", r.cols, want.cols, w)
        for i in range(int(want.rows.const())):
            for j in range(int(want.cols.const())):
                ck.same(lab + "element (%d, %d)" % (i, j), r.at(P(i), P(j)), want.at(P(i), P(j)), w)


def inverse(b):
    return tfn("inverse", b.rows, b.cols, [lam(b)])


# ------------------------------------------------------------------ intervals
def state(I):
    return I.st.roots["this"].fields[fields(I.prog)["v"]]


def member(I, i, what):
    return state(I).f(P(i)).fields[fields(I.prog)[what]]


def structure(ck, p):
    K, TAU = "K", "tau"
    J = sym("ja", True)
    tm.SIZE_SYMS.add("ja")
    tm.INT_SYMS.add("ja")
    r = fields(p)
    # ---- constructors
    cons = [f for f in p.funcs.values() if f["name"] == "Mesh" and "::operator()" not in f["full"] and not f.get("implicit") and f.get("body") and len(f["ps"]) in (0, 2)]
    if len(cons) != 2:
        raise AnchorMissing("constructors of Mesh")
    cases = [(f, n) for f in cons for n in ((None,) if not f["ps"] else (ZERO, ONE, 2 + sym("rest", True)))]
    for f, n in cases:
        k = sym("Dt", True)
        I = start(p)
        ty = next(t for t in p.types if t.get("qn") == CLS and t.get("k") == "rec" and "rec" in t)
        o = I.construct(f, ty, [], {"k": "Ctor", "a": []}, argvals=[LVTemp(n), LVTemp(k)][:len(f["ps"])])
        o = o.get(I) if isinstance(o, LV) else o
        w = p.loc(f)
        lab = "Mesh(%s): " % ("%s, k" % n if f["ps"] else "")
        understood(ck, lab, I, w)
        v = o.fields.get(r["v"])
        if not isinstance(v, VecV):
            ck.undecided(lab + "intervals", w, repr(v))
            continue
        cnt = ONE if n in (None, ZERO) else n
        ck.same(lab + "number of intervals", v.size, cnt, w)
        j = ZERO if cnt == ONE else J
        under = gt(cnt - j, 0)
        e = v.f(j)
        ck.same(lab + "degree", e.fields[r[K]], k if f["ps"] else P(KMIN), w, under=under)
        ck.same(lab + "start of an interval", e.fields[r[TAU]], j / cnt if f["ps"] else ZERO, w, under=under)
    # ---- queries
    for name, args, want in (("N_ivals", [], NI), ("N_colloc_ival", [IV], Ki(IV)), ("N_colloc", [], total(NI, Ki))):
        I = start(p)
        f, x = call(I, name, args)
        w = p.loc(f)
        understood(ck, name + ": ", I, w)
        ck.same(name, I.scalar(x), want, w, under=HERE)
        unchanged(ck, name + ": ", I, w)
    # ---- degrees
    D = sym("Dt", True)
    h = sym("rest", True)
    (ia,), (ja,) = atoms_of(IV), atoms_of(J)

    def member_same(name, I, what, want, w, under, at=None):
        """before, at and after the interval ival"""
        for place, sub in (("", {ja: IV}), (", interval before", {ia: J + 1 + h}), (", interval after", {ja: IV + 1 + h})):
            S = lambda x: subst(x, sub) if at is None else subst(subst(x, sub), at)
            ck.same(name + place, S(member(I, J, what)), S(want), w, under=subst_b(under, sub))
    ok = and_(gt(NI - J, 0), HERE)
    for name, args, want in (("set_N_colloc_ival", [IV, D], ite(eq(J, IV), D, Ki(J))), ("increase_degrees", [], minof([Ki(J) + 1, P(KMAX + 1)])),
                             ("decrease_degrees", [], maxof([Ki(J) - 1, P(KMIN)]))):
        I = start(p)
        f, x = call(I, name, args)
        w = p.loc(f)
        understood(ck, name + ": ", I, w)
        ck.same(name + ": number of intervals", state(I).size, NI, w)
        if name == "set_N_colloc_ival":
            member_same(name + ": degree", I, K, want, w, ok)
        else:
            # the degrees of a mesh are Kmin .. Kmax + 1
            for k in DEGREES:
                member_same(name + ": degree, from %d" % k, I, K, want, w, ok, TSub(tens={"Ki": lambda *a, k=k: P(k)}))
        member_same(name + ": start", I, TAU, t0(J), w, ok)
    # ---- refinement
    I = start(p)
    f, x = call(I, "refine_ph", [IV, D])
    w = p.loc(f)
    lab = "refine_ph: "
    understood(ck, lab, I, w)
    split = or_(gt(D - KMAX, 0), gt(Ki(IV) - KMAX, 0))
    n = maxof([P(2), fn("idiv", D + KMIN - 1, P(KMIN))])
    ck.same(lab + "number of intervals when one is split", state(I).size, NI + n - 1, w, under=and_(HERE, split))
    ck.same(lab + "number of intervals otherwise", state(I).size, NI, w, under=and_(HERE, not_(split)))
    keep = and_(HERE, not_(split), ok)
    member_same(lab + "degree when none is split", I, K, ite(and_(eq(J, IV), ge(D - Ki(IV), 0)), D, Ki(J)), w, keep)
    member_same(lab + "start when none is split", I, TAU, t0(J), w, keep)
    for what, i, under, kk, tt in (("intervals before", J, gt(IV - J, 0), Ki(J), t0(J)),
                                   ("the interval itself", IV, TRUE, P(KMIN), t0(IV)),
                                   ("new intervals", IV + 1 + J, gt(n - 1 - J, 0), P(KMIN), t0(IV) + (J + 1) * length() / n),
                                   ("intervals after", IV + n + J, gt(NI - IV - 1 - J, 0), Ki(IV + 1 + J), t0(IV + 1 + J))):
        u = and_(HERE, split, under)
        ck.same(lab + "split: degree of %s" % what, member(I, i, K), kk, w, under=u)
        ck.same(lab + "split: start of %s" % what, member(I, i, TAU), tt, w, under=u)
    errors(ck, p)


def unchanged(ck, lab, I, w):
    j = gidx("u", NI, {})
    ck.same(lab + "number of intervals", state(I).size, NI, w)
    ck.same(lab + "degrees", member(I, j, "K"), Ki(j), w)
    ck.same(lab + "starts", member(I, j, "tau"), t0(j), w)


def total(n, f):
    v = tm.fresh("s")
    tm.RANGES[v] = (ZERO, n)
    return tm.sum_(v, ZERO, n, f(bv(v)))


def errors(ck, p):
    """refine_errors: intervals in decreasing order, so that the indices of those to come stay valid"""
    calls = []

    def refine(I, e, o, a):
        calls.append((I.scalar(V(I, a[0])), I.scalar(V(I, a[1])), I.st.pc, I.prog.loc(e), I.quiet))
        return Opq("void")
    I = start(p)
    I.models[CLS + "::refine_ph"] = refine
    err = VecV(NI, lambda i: el("err", P(i)))
    tgt = sym("target")
    f, x = call(I, "refine_errors", [err, tgt])
    w = p.loc(f)
    lab = "refine_errors: "
    understood(ck, lab, I, w)
    loops = [L for L in I.loops if L.fname == "refine_errors"]
    calls = [c for c in calls if not c[4]]
    if len(loops) != 1 or not getattr(loops[0], "closed", False) or len(calls) != 1:
        return ck.undecided(lab + "one call in one loop", w, "%d loops, %d calls" % (len(loops), len(calls)))
    L = loops[0]
    i, D, pc, w, _ = calls[0]
    k = bv(L.iv)
    gi = {L.iv: NI}
    at = NI - 1 - k
    ck.same(lab + "every interval", L.trip, NI, w)
    ck.same(lab + "from the last interval to the first", i, at, w, gi=gi)
    ck.same_b(lab + "those whose error exceeds the target", pc, gt(el("err", at) - tgt, 0), w, gi=gi) if hasattr(ck, "same_b") else ck.same(lab + "those whose error exceeds the target", pc, gt(el("err", at) - tgt, 0), w, gi=gi)
    ck.same(lab + "degree asked for", D, Ki(at) + fn("lround", fn("log", el("err", at) / tgt) / fn("log", Ki(at)) + 1), w, under=gt(el("err", at) - tgt, 0), gi=gi)
    unchanged(ck, lab, I, w)


def evaluation(ck, p):
    t = sym("t")
    # ---- the interval of t
    I = start(p)
    f, x = call(I, "interval_find", [t])
    w = p.loc(f)
    understood(ck, "interval_find: ", I, w)
    pos, ex = found(NI, lambda i: le(t0(i), t))
    want = ite(lt(t, 0), ZERO, ite(gt(t, 1), NI - 1, ite(ex, pos, ZERO)))
    ck.same("interval_find", I.scalar(x), want, w)
    # ---- polynomials
    jobs = [(k, last, ext) for k in DEGREES for last in (True, False) for ext in (True, False)]
    parallel(ck, jobs, lambda c, j: value(c, p, t, *j))


def spread(x):
    """the sums of at most eight terms of a polynomial written out"""
    out = ZERO
    for (b, f), c in P(x).terms.items():
        n = next((i for i, (v, lo, hi) in enumerate(b) if (hi - lo).const() is not None and 0 <= (hi - lo).const() <= 8), None)
        one = Poly({(b, f): c})
        if n is None:
            out = out + one
            continue
        v, lo, hi = b[n]
        one = Poly({(b[:n] + b[n + 1:], f): c})
        for i in range(int((hi - lo).const())):
            out = out + spread(subst(one, {("bv", v): lo + i}))
    return out


def value(ck, p, t, k, last, ext):
    q, dim = sym("pder", True), sym("dim", True)
    tm.SIZE_SYMS.add("pder")
    tm.INT_SYMS.add("pder")
    lab = "eval in %s interval of degree %d, %s: " % ("the last" if last else "another", k, "with an end point" if ext else "without end point")
    I = start(p, k, last)
    I.models[CLS + "::interval_find"] = lambda I, e, o, a: IV
    b0 = total(IV, Ki)
    m = k + 1 if ext or not last else k
    # as many values as the mesh has nodes
    xs = VecV(b0 + m + (ZERO if last else sym("rest", True)), lambda i: T(dim, ONE, lambda r, c: el("xv", P(i), r)))
    f, r = call(I, "eval", [t, xs, q, TRUE if ext else FALSE])
    w = p.loc(f)
    understood(ck, lab, I, w)
    if not isinstance(r, T):
        return ck.undecided(lab + "value", w, repr(r))
    u = 2 * (t - I.t0) / LEN - 1
    W = mul(mono(m - 1, u, q), basis(m - 1, nodes(k)[:m]))
    gi = {}
    comp = gidx("r", dim, gi)
    ck.same(lab + "number of components", r.rows, dim, w)
    got = spread(r.at(comp, ZERO))
    # linear in the values: one value at a time
    val = lambda j: [a for a in atoms_of(el("xv", b0 + j, comp)) if a[0] == "el" and a[1] == "xv"][0]
    mine = [val(j) for j in range(m)]
    for j in range(m):
        one = subst(got, {a: ONE if n == j else ZERO for n, a in enumerate(mine)})
        ck.same(lab + "coefficient of value %d" % j, one, W.at(ZERO, P(j)) * fn("pow", 2 / LEN, q), w, gi=gi)
    ck.same(lab + "nothing else", subst(got, {a: ZERO for a in mine}), ZERO, w, gi=gi)
    want = sum((W.at(ZERO, P(j)) * el("xv", b0 + j, comp) for j in range(m)), ZERO) * fn("pow", 2 / LEN, q)
    if k == KMIN:
        ck.same(lab + "value", got, want, w, gi=gi)
