"""Obligations on the sparse matrix utilities (properties S..)"""
from sa.framework import *
from sa.interp import Program, Interp, LV

SPEC = {
    "S01": ("block_add", "block_write", "block_add_identity", "block_write_identity"),
    "S02": ("d2r_fog",),
    "S03": ("set_zero", "count_explicit_zeros", "mark_explicit_zeros"),
}


# calls (tu/sparse.cpp) that leave the optional arguments out: scale = 1, the whole block, the upper left corner
WRAP = {"dflt_add": "block_add", "dflt_write": "block_write", "dflt_add_id": "block_add_identity",
        "dflt_write_id": "block_write_identity", "dflt_fog": "d2r_fog"}


def tyname(p, t):
    x = p.types[t]
    while x.get("k") in ("ref", "ptr"):
        x = p.types[x["to"]]
    return x


def short(ty):
    n = ty.get("name", "?")
    s = ty.get("s", "")
    if n == "SparseMatrix":
        return "row-major sparse" if ", 1, int>" in s else "sparse"
    return {"Matrix": "dense", "Product": "product", "Block": "block"}.get(n, n)


def is_sparse(ty):
    return ty.get("eig") == "sparse"


def call(p, f, over):
    """abstract execution with named arguments; returns (interpreter, result)"""
    I = Interp(p)
    I.strict = True
    I.dims = {}
    av = []
    for q in f["ps"]:
        n = q["name"]
        r = "arg." + n
        I.st.roots[r] = over[n](I) if n in over else I.symbolic(tyname(p, q["t"]), n)
        av.append(LV(r))
    r = I.run(f, argvals=av)
    return I, r


def bad(I):
    # reads of __FILE__ and the like in assert() have no effect
    return [u for u in I.unsupported if "SourceLocExpr" not in u[0] and "PredefinedExpr" not in u[0]]


def inside(i, lo, n):
    return and_(ge(P(i) - lo, 0), gt(P(lo) + n - P(i), 0))


def check_fn(ck, p, f):
    name = WRAP.get(f["name"], f["name"])
    dflt = f["name"] in WRAP
    ps = f["ps"]
    tys = [tyname(p, q["t"]) for q in ps]
    where = p.loc(f)
    i0, j0 = [q["name"] for q in ps][:2] if len(ps) > 1 else ("", "")
    lab = "%s(%s)" % (name + (" with default arguments" if dflt else ""), ", ".join(short(t) for t in tys if "eig" in t))
    dims = {}
    if name == "d2r_fog":
        No, Ny, Nx = sym("No", True), sym("Ny", True), sym("Nx", True)
        for s in ("No", "Ny", "Nx"):
            tm.SIZE_SYMS.add(s)
        n = [q["name"] for q in ps]

        def mk(nm, r, c, k):
            def g(I):
                t = I.symbolic(tys[k], nm)
                return T.base(nm, r, c, t.meta)
            return g
        over = {n[1]: mk("Jf", No, Ny, 1), n[2]: mk("Hf", Ny, No * Ny, 2), n[3]: mk("Jg", Ny, Nx, 3), n[4]: mk("Hg", Nx, Ny * Nx, 4),
                n[0]: mk("out", sym("out.rows", True), sym("out.cols", True), 0)}
        tm.SIZE_SYMS.update(("out.rows", "out.cols"))
        I, r = call(p, f, over)
        got = I.tens(I.st.roots["arg." + n[0]])
        out = T.base("out", got.rows, got.cols)
        Jf, Hf, Jg, Hg = T.base("Jf", No, Ny), T.base("Hf", Ny, No * Ny), T.base("Jg", Ny, Nx), T.base("Hg", Nx, Ny * Nx)
        r0, c0 = (ZERO, ZERO) if dflt else (sym(n[5], True), sym(n[6], True))

        def want(i, j):
            o, b, k, q1, q2 = (tm.fresh("s") for _ in range(5))
            O, Bb, K, Q1, Q2 = bv(o), bv(b), bv(k), bv(q1), bv(q2)
            a = P(i) - r0
            at = and_(inside(a, ZERO, Nx), is0(P(j) - c0 - O * Nx - Bb))
            t1 = tm.sum_(q1, ZERO, Ny, tm.sum_(q2, ZERO, Ny, Jg.at(Q1, a) * Hf.at(Q1, O * Ny + Q2) * Jg.at(Q2, Bb)))
            t2 = Jf.at(O, K) * Hg.at(a, K * Nx + Bb)
            return (out.at(i, j) + tm.sum_(o, ZERO, No, tm.sum_(b, ZERO, Nx, ite(at, t1, ZERO)))
                    + tm.sum_(o, ZERO, No, tm.sum_(b, ZERO, Nx, tm.sum_(k, ZERO, Ny, ite(at, t2, ZERO)))))
        w = T(got.rows, got.cols, want)
        dims = {"No": [2, 1, 3], "Ny": [3, 2, 1], "Nx": [2, 1, 3], "out.rows": 4, "out.cols": 7}
        small = lambda r: r.choice([0, 0, 1])
        ck.same_t("%s: out += Jg^T Hf_k Jg + sum_i Jf_ki Hg_i" % lab, got, w, where, dims=dims, fixed={n[5]: small, n[6]: small} if not dflt else None)
        return unresolved(ck, I, lab, where)
    I, r = call(p, f, {})
    A = [q["name"] for q in ps]
    if name in ("block_add", "block_write"):
        got = I.tens(I.st.roots["arg." + A[0]])
        dest = T.base(A[0], got.rows, got.cols)
        if dflt:
            A = [A[0], A[2], A[3], A[1]]
            tys = [tys[0], tys[2], tys[3], tys[1]]
        src = T.base(A[3], sym(A[3] + ".rows", True), sym(A[3] + ".cols", True))
        r0, c0 = sym(A[1], True), sym(A[2], True)
        k, up = (ONE, FALSE) if dflt else (sym(A[4]), bsym(A[5]))

        def want(i, j):
            a, b = P(i) - r0, P(j) - c0
            at = and_(inside(a, ZERO, src.rows), inside(b, ZERO, src.cols), or_(not_(up), ge(P(j) - P(i), 0)))
            v = src.at(a, b) * k
            if name == "block_add":
                return dest.at(i, j) + ite(at, v, ZERO)
            st = nz_of(src.at(a, b)) if is_sparse(tys[3]) else TRUE
            return ite(and_(at, st), v, dest.at(i, j))
        ck.same_t("%s: %s" % (lab, "dest[r0+i, c0+j] += scale*source[i, j]" if name == "block_add" else "dest[r0+i, c0+j] = scale*source[i, j]"),
                  got, T(got.rows, got.cols, want), where)
    elif name in ("block_add_identity", "block_write_identity"):
        got = I.tens(I.st.roots["arg." + A[0]])
        dest = T.base(A[0], got.rows, got.cols)
        r0, c0, n, k = sym(A[1], True), sym(A[2], True), sym(A[3], True), ONE if dflt else sym(A[4])

        def want(i, j):
            at = and_(inside(i, r0, n), is0(P(i) - r0 - P(j) + c0))
            return dest.at(i, j) + ite(at, k, ZERO) if name == "block_add_identity" else ite(at, k, dest.at(i, j))
        ck.same_t("%s: %s" % (lab, "dest[r0+k, c0+k] %s scale" % ("+=" if "add" in name else "=")), got, T(got.rows, got.cols, want), where)
    elif name == "set_zero":
        got = I.tens(I.st.roots["arg." + A[0]])
        old = T.base(A[0], got.rows, got.cols)
        # entries that are not stored are zero already
        st = lambda i, j: nz_of(old.at(i, j))
        ck.same_t("%s: every stored entry becomes 0" % lab, got, tconst(got.rows, got.cols, ZERO), where, under=st)
    elif name == "mark_explicit_zeros":
        old = I.st.roots["arg." + A[0]]
        old = T.base(A[0], sym(A[0] + ".rows", True), sym(A[0] + ".cols", True))

        def want(i, j):
            v = old.at(i, j)
            return ite(nz_of(v), ite(is0(v), P(9), ONE), ZERO)
        got = I.tens(r)
        ck.same_t("%s: 0 implicit zero, 1 nonzero, 9 explicit zero" % lab, got, T(old.rows, old.cols, want), where)
    elif name == "count_explicit_zeros":
        old = T.base(A[0], sym(A[0] + ".rows", True), sym(A[0] + ".cols", True))
        i, j = tm.fresh("s"), tm.fresh("s")
        v = old.at(bv(i), bv(j))
        body = ite(and_(nz_of(v), is0(v)), ONE, ZERO)
        ck.same("%s: number of stored zeros" % lab, I.scalar(r), tm.sum_(i, ZERO, old.rows, tm.sum_(j, ZERO, old.cols, body)), where)
    unresolved(ck, I, lab, where)


def is0(x):
    return and_(ge(x, 0), ge(-P(x), 0))


def nz_of(x):
    ((b, f), c), = x.terms.items()
    return nz(f[0][0])


def unresolved(ck, I, lab, where):
    u = bad(I)
    if u:
        ck.undecided("%s: constructs outside the model" % lab, where, str(u[:3]))


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = Program(extract("sparse"))
    names = SPEC[pid] + tuple(w for w in WRAP if WRAP[w] in SPEC[pid])
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.get("body") and f.get("name") in names), key=lambda f: (f["name"], p.loc(f))):
        n += 1
        try:
            check_fn(ck, p, f)
        except AnchorMissing as e:
            ck.undecided(f["name"], p.loc(f), "cannot find: %s" % e)
        except Exception as e:          # noqa
            ck.undecided(f["name"], p.loc(f), "not analysable: %r %s" % (e, traceback.format_exc(limit=-3)))
    for nm in SPEC[pid]:
        if not any(f.get("name") == nm and f.get("body") for f in p.funcs.values()):
            ck.undecided(nm, "", "cannot find the function")
    ck.analysed["instantiations of %s" % ", ".join(SPEC[pid])] = n
    return ck
