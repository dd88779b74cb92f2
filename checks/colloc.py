"""Obligations on functions evaluated on a collocation mesh (properties L01..): any number of nodes and intervals, any function"""
from sa.framework import *
from sa.interp import Program, Interp, LV, RefV, Seq, ZipV, CountV
from sa.interp import VecV
from sa import smooth
from sa.lib import sqrt_

_p = {}
NUM = 0                             # the differentiation method requested in tu/colloc.cpp
NX, NU, NF = 2, 3, 2
MESH = "smooth::feedback::Mesh::"
N, NI = sym("N", True), sym("NI", True)
tm.SIZE_SYMS.update(("N", "NI"))
tm.INT_SYMS.update(("Ki",))
tm.SIZE_SYMS.add("Ki")
V = smooth.V


def program():
    if "p" not in _p:
        _p["p"] = Program(extract("colloc", incs=("stub",)))
    return _p["p"]


def arg(I, a, n=0):
    return I.scalar(V(I, a[n]))


def Ki(k):
    return el("Ki", k)


def tau(i):
    return el("tau", i)


def wq(i):
    return el("wq", i)


def zip_h(I, e, o, a):
    """as long as the shortest of its arguments"""
    parts, size = [], None
    for x in a:
        lv = I.lv(x)
        v = lv.get(I)
        while isinstance(v, RefV):
            lv, v = v.lv, v.lv.get(I)
        parts.append((lv, v))
        s = getattr(v, "size", None)
        if isinstance(v, (T, Undef)):
            s = I.tens(v).rows
        if s is None:
            if not isinstance(v, CountV):
                return NotImplemented
            continue
        if size is None:
            size = s
        else:
            d = (s - size).const()
            size = ite(ge(s - size, 0), size, s) if d is None else s if d < 0 else size
    return ZipV(parts, size)


def iota(I, e, o, a):
    a = a[1:] if e.get("op") == "()" and o is None else a
    x = [I.scalar(V(I, y)) for y in a]
    return CountV(x[0], x[1] - x[0] if len(x) > 1 else None)


def vec(n, f):
    return VecV(n, f)


Mesh_MODEL = {
    MESH + "N_colloc": lambda I, e, o, a: N,
    MESH + "N_ivals": lambda I, e, o, a: NI,
    MESH + "N_colloc_ival": lambda I, e, o, a: Ki(arg(I, a)),
    MESH + "all_nodes": lambda I, e, o, a: vec(N + 1, tau),
    MESH + "all_weights": lambda I, e, o, a: vec(N + 1, wq),
    MESH + "interval_nodes": lambda I, e, o, a: (lambda k: vec(Ki(k) + 1, lambda i: fn("itau", k, i)))(arg(I, a)),
    MESH + "interval_weights": lambda I, e, o, a: (lambda k: vec(Ki(k) + 1, lambda i: fn("iw", k, i)))(arg(I, a)),
    MESH + "interval_diffmat_unscaled": lambda I, e, o, a: (lambda k: Seq([fn("alpha", k), T(Ki(k) + 1, Ki(k), lambda i, j: fn("Dus", k, i, j))], "tuple"))(arg(I, a)),
    MESH + "interval_diffmat": lambda I, e, o, a: (lambda k: T(Ki(k) + 1, Ki(k), lambda i, j: fn("alpha", k) * fn("Dus", k, i, j)))(arg(I, a)),
    MESH + "interval_intmat": lambda I, e, o, a: (lambda k: T(Ki(k), Ki(k), lambda i, j: fn("Im", k, i, j)))(arg(I, a)),
    "smooth::utils::zip": zip_h,
    "std::ranges::views::_Iota::operator()": iota,
}
MODEL = dict(Mesh_MODEL, **{"vf::Fun::operator()": smooth.user("f")})


def start(p):
    I = Interp(p, models=dict(smooth.MODELS, **MODEL))
    I.ext = set()
    I.strict = True
    I.dims = {}
    return I


def x(i):
    return T(P(NX), ONE, lambda a, b: el("xs", i, a))


def u(i):
    return T(P(NU), ONE, lambda a, b: el("us", i, a))


t0, tf = sym("t0"), sym("tf")


class Node:
    """the function and its derivatives at node i"""
    def __init__(self, i):
        self.i = i
        self.tau = tau(i)
        self.mtau = ONE - self.tau
        self.t = t0 + (tf - t0) * self.tau
        self.x, self.u = x(i), u(i)
        self.pt = [self.t, lam(self.x), lam(self.u)]
        self.F = tfn("f", NF, 1, self.pt)

    def D(self, r, c):
        """derivative of component r by t (0), x (1, 2) or u (3, 4, 5)"""
        n, o = (0, 0) if c == 0 else (1, 1) if c <= NX else (2, 1 + NX)
        ph = [sym("ph1.0"), lam(T.base("ph1.1", NX, 1)), lam(T.base("ph1.2", NU, 1))]
        at = list(self.pt)
        at[n] = ph[n]
        return fn("D", tfn("f", NF, 1, at).at(r), P(c - o), self.pt[n])

    def D2(self, r, a, b):
        return tfn("D2", 6, 6 * NF, [lam(self.F)] + self.pt).at(P(a), P(6 * r + b))


def cols(i):
    """columns of the variables of node i: (name, column, coordinate)"""
    return [("x%d" % a, 2 + NX * i + a, 1 + a) for a in range(NX)] + [("u%d" % a, 2 + NX * (N + 1) + NU * i + a, 1 + NX + a) for a in range(NU)]


NV = 2 + NX * (N + 1) + NU * N


def total(f):
    v = tm.fresh("s")
    return tm.sum_(v, ZERO, N, f(bv(v)))


def execute(p, f, alloc):
    I = start(p)
    nout = P(NF) if f["name"] == "mesh_integrate" else NF * N
    for q in f["ps"]:
        n, ty = q["name"], p.types[q["t"]]
        role = roles(p, f)[n]
        v = I.symbolic(ty, role)
        if role == "f":
            v = UserFn("f")
        elif role in ("xs", "us"):
            v = vec(N + 1, x) if role == "xs" else vec(N, u)
        elif role == "out":
            v.fields["allocated"] = B(alloc)
            for k in list(v.fields):
                if k in ("F", "dF", "d2F", "lambda") and (alloc or k == "lambda"):
                    v.fields[k] = T.base("out." + k, NV if k == "d2F" else nout, ONE if k in ("F", "lambda") else NV, v.fields[k].meta)
        I.st.roots[n] = v
    I.run(f, argvals=[LV(q["name"]) for q in f["ps"]])
    return I, I.st.roots[[n for n, r in roles(p, f).items() if r == "out"][0]]


def roles(p, f):
    return dict(zip([q["name"] for q in f["ps"]], ["out", "m", "f", "t0", "tf", "xs", "us", "scale"]))


def level(f):
    """0, 1 or 2 derivatives"""
    return int(f["targs"][0])


def bad(I):
    return [u for u in I.unsupported if "SourceLocExpr" not in u[0] and "PredefinedExpr" not in u[0]]


def offdiag(ck, lab, what, at, w, i, hi):
    """entries of other nodes: before and after node i"""
    gi = dict(GI)
    for nm, k in (("earlier", gidx("e", i, gi)), ("later", i + 1 + gidx("l", hi - i - 1, gi))):
        for c, col, _ in cols(k):
            if c.startswith("u") and hi == N + 1:
                continue
            ck.same(lab + "%s: %s of %s nodes" % (what, c, nm), at(col), ZERO, w, gi=gi)


GI = {}


def generic(slot, size):
    v = gidx(slot, size)
    (a,), = [list(atoms_of(v))]
    GI[a[1]] = P(size)
    return v


def run(pid, tier, seed):
    evalt.LOOP_FREE = True
    ck = Check(pid, tier, seed)
    p = program()
    if pid == "L04":
        return dyn_error(ck, p)
    name = {"L01": "mesh_eval", "L02": "mesh_integrate", "L03": "mesh_dyn"}[pid]
    fs = [f for f in p.funcs.values() if f["name"] == name and f.get("body")]
    if not fs:
        raise AnchorMissing(name)
    jobs = [(f, al) for f in fs for al in (False, True)]
    parallel(ck, jobs, lambda c, j: one(c, p, name, *j))
    return ck


def one(ck, p, name, f, alloc):
    K = level(f)
    w = p.loc(f)
    lab = "%s<%d>, %s: " % (name, K, "allocated" if alloc else "not allocated")
    I, out = execute(p, f, alloc)
    if bad(I):
        ck.undecided(lab + "constructs not understood", w, str(bad(I)[:3]))
    for k in ("F", "dF", "d2F")[:K + 1]:
        if not isinstance(out.fields.get(k), T):
            return ck.undecided(lab + k, w, repr(out.fields.get(k)))
    {"mesh_eval": ev, "mesh_integrate": integ, "mesh_dyn": dyn}[name](ck, lab, w, K, I, out.fields)
    if K:
        ck.rule(lab + "derivatives are taken with the requested method", getattr(I, "dr_types", set()) <= {NUM}, w,
                "diff::dr is called with the methods %s" % sorted(getattr(I, "dr_types", set())))
    ck.same(lab + "the memory is marked as allocated", out.fields["allocated"], TRUE, w)


def sizes(ck, lab, w, K, o, nout):
    ck.same(lab + "size of F", o["F"].rows, nout, w)
    if K > 0:
        ck.same(lab + "rows of dF", o["dF"].rows, nout, w)
        ck.same(lab + "columns of dF", o["dF"].cols, NV, w)
    if K > 1:
        ck.same(lab + "rows of d2F", o["d2F"].rows, NV, w)
        ck.same(lab + "columns of d2F", o["d2F"].cols, NV, w)


def second(ck, lab, w, H, i, node, lamb, wt, integral):
    """upper triangle of the weighted sum of second derivatives"""
    n = node
    T1 = tf - t0 if integral else ONE

    def hs(n, a, b):
        """coordinates a, b of the node's variables"""
        return sum((wt(n) * lamb(n, r) * T1 * n.D2(r, a, b) for r in range(NF)), ZERO)

    def gs(n, b):
        return sum((wt(n) * lamb(n, r) * n.D(r, b) for r in range(NF)), ZERO) if integral else ZERO
    C = {0: (lambda n: n.mtau, -1), 1: (lambda n: n.tau, 1)}
    for a in (0, 1):
        for b in (0, 1):
            ca, sa = C[a]
            cb, sb = C[b]
            nm = lab + "d2F (%s, %s)" % (("t0", "tf")[a], ("t0", "tf")[b])
            want = ZERO if b < a else total(lambda k: (lambda m: hs(m, 0, 0) * ca(m) * cb(m) + gs(m, 0) * (sa * cb(m) + sb * ca(m)))(Node(k)))
            ck.same(nm, H.at(P(a), P(b)), want, w)
        for c, col, q in cols(i):
            ck.same(lab + "d2F (%s, %s)" % (("t0", "tf")[a], c), H.at(P(a), col), hs(n, 0, q) * C[a][0](n) + gs(n, q) * C[a][1], w, gi=GI)
            ck.same(lab + "d2F (%s, %s) is below the diagonal" % (c, ("t0", "tf")[a]), H.at(col, P(a)), ZERO, w, gi=GI)
    for c, col, q in cols(i):
        for d, col2, q2 in cols(i):
            want = ZERO if q2 < q else hs(n, q, q2)
            ck.same(lab + "d2F (%s, %s)" % (c, d), H.at(col, col2), want, w, gi=GI)
        offdiag(ck, lab, "d2F %s" % c, lambda x: H.at(col, x), w, i, N)
        for a in range(NX):
            ck.same(lab + "d2F (%s, last x%d)" % (c, a), H.at(col, 2 + NX * N + a), ZERO, w, gi=GI)
            ck.same(lab + "d2F (last x%d, %s)" % (a, c), H.at(2 + NX * N + a, col), ZERO, w, gi=GI)


def ev(ck, lab, w, K, I, o):
    GI.clear()
    i, r = generic("a", N), generic("b", NF)
    n = Node(i)
    wt = lambda n: ite(bsym("scale"), wq(n.i), ONE)
    sizes(ck, lab, w, K, o, NF * N)
    ck.same(lab + "F", o["F"].at(NF * i + r), wt(n) * n.F.at(r), w, gi=GI)
    if K > 0:
        d = lambda c: o["dF"].at(NF * i + r, c)
        ck.same(lab + "dF by t0", d(ZERO), wt(n) * n.D(r, 0) * n.mtau, w, gi=GI)
        ck.same(lab + "dF by tf", d(ONE), wt(n) * n.D(r, 0) * n.tau, w, gi=GI)
        for c, col, q in cols(i):
            ck.same(lab + "dF by %s of the node" % c, d(col), wt(n) * n.D(r, q), w, gi=GI)
        offdiag(ck, lab, "dF", d, w, i, N)
        for a in range(NX):
            ck.same(lab + "dF by the last x%d" % a, d(2 + NX * N + a), ZERO, w, gi=GI)
    if K > 1:
        second(ck, lab, w, o["d2F"], i, n, lambda n, r: el("out.lambda", NF * n.i + r), wt, False)


def integ(ck, lab, w, K, I, o):
    GI.clear()
    i, r = generic("a", N), generic("b", NF)
    n = Node(i)
    wt = lambda n: wq(n.i)
    sizes(ck, lab, w, K, o, P(NF))
    ck.same(lab + "F", o["F"].at(r), total(lambda k: wq(k) * (tf - t0) * Node(k).F.at(r)), w, gi=GI)
    if K > 0:
        d = lambda c: o["dF"].at(r, c)
        ck.same(lab + "dF by t0", d(ZERO), total(lambda k: (lambda m: wq(k) * ((tf - t0) * m.D(r, 0) * m.mtau - m.F.at(r)))(Node(k))), w, gi=GI)
        ck.same(lab + "dF by tf", d(ONE), total(lambda k: (lambda m: wq(k) * ((tf - t0) * m.D(r, 0) * m.tau + m.F.at(r)))(Node(k))), w, gi=GI)
        for c, col, q in cols(i):
            ck.same(lab + "dF by %s" % c, d(col), wq(i) * (tf - t0) * n.D(r, q), w, gi=GI)
        for a in range(NX):
            ck.same(lab + "dF by the last x%d" % a, d(2 + NX * N + a), ZERO, w, gi=GI)
    if K > 1:
        second(ck, lab, w, o["d2F"], i, n, lambda n, r: el("out.lambda", P(r)), wt, True)


def dyn(ck, lab, w, K, I, o):
    GI.clear()
    i, r = generic("a", N), generic("b", NX)
    n = Node(i)
    sizes(ck, lab, w, K, o, NX * N)
    # the loop over the nodes that adds what is linear in the states
    names = [("out", k) for k in ("F", "dF")[:1 + min(K, 1)]]
    cand = [L for L in I.loops if L.fname == "mesh_dyn" and getattr(L, "closed", False) and L.trip == N + 1 and any(k[-1] == "F" for k in L.heads)]
    if len(cand) != 1:
        return ck.undecided(lab + "the loop over the states", w, "%d loops" % len(cand))
    L = cand[0]
    w = I.prog.loc(L.node)
    key = {k[-1]: k for k in L.heads if k[-1] in ("F", "dF")}
    if set(key) != set(("F", "dF")[:1 + min(K, 1)]):
        return ck.undecided(lab + "the loop over the states", w, "changes %s" % list(L.heads))
    # before that loop: the function values and their derivatives
    F0 = L.init[key["F"]]
    wt = lambda n: wq(n.i)
    ck.same(lab + "F: function values", F0.at(NX * i + r), wt(n) * (tf - t0) * n.F.at(r), w, gi=GI)
    if K > 0:
        d = lambda c: L.init[key["dF"]].at(NX * i + r, c)
        ck.same(lab + "dF by t0", d(ZERO), wt(n) * ((tf - t0) * n.D(r, 0) * n.mtau - n.F.at(r)), w, gi=GI)
        ck.same(lab + "dF by tf", d(ONE), wt(n) * ((tf - t0) * n.D(r, 0) * n.tau + n.F.at(r)), w, gi=GI)
        for c, col, q in cols(i):
            ck.same(lab + "dF by %s of the node: function values" % c, d(col), wt(n) * (tf - t0) * n.D(r, q), w, gi=GI)
        offdiag(ck, lab, "dF: function values", d, w, i, N)
        for a in range(NX):
            ck.same(lab + "dF by the last x%d: function values" % a, d(2 + NX * N + a), ZERO, w, gi=GI)
    if K > 1:
        second(ck, lab, w, o["d2F"], i, n, lambda n, r: el("out.lambda", NX * n.i + r), wt, True)
    linear(ck, lab, w, K, I, o, L, key)


def linear(ck, lab, w, K, I, o, L, key):
    """- sum_k w D(k, j) x_k, added state by state; at state i the loop stands in interval v, whose nodes are b .. b + Ki(v)"""
    k = bv(L.iv)
    tm.RANGES[L.iv] = (ZERO, N + 1)
    ints = {x: h for x, h in L.heads.items() if x not in key.values() and isinstance(h, Poly)}
    role = {}
    for q, h in ints.items():
        e, i0 = L.end[q], L.init[q]
        if not isinstance(e, Poly):
            continue
        if i0 == Ki(ZERO):
            role.setdefault("n", []).append(q)
        elif i0 == ZERO:
            # the number of the interval never changes by more than one
            by = [y - h for y in leaves_of(e)]
            role.setdefault("v" if all(y.const() is not None for y in by) else "b", []).append(q)
    if any(len(role.get(a, ())) != 1 for a in "nvb") or len(ints) != 3:
        return ck.undecided(lab + "the loop over the states", w, "loop variables: %s" % role)
    kn, kv, kb = role["n"][0], role["v"][0], role["b"][0]
    v, b = L.heads[kv], L.heads[kb]
    n = Ki(v)
    sub = {list(atoms_of(L.heads[kn]))[0]: n}
    S = lambda x: subst(x, sub) if isinstance(x, Poly) else subst_b(x, sub)
    last = and_(ge(k - b - n, 0), ge(b + n - k, 0))
    more = gt(NI - v - 1, 0)
    for s in (v, b):
        (a,), = [list(atoms_of(s))]
        tm.INT_SYMS.add(a[1])
        tm.SIZE_SYMS.add(a[1])
    gi = dict(GI)
    gi[L.iv] = N + 1
    kw = dict(w=w, gi=gi)

    def same(name, got, want, under=TRUE):
        ck.same(name, S(got), S(want), w, under=under, gi=gi)
    # ---- the intervals
    ck.same(lab + "the first interval", L.init[kv], ZERO, w)
    ck.same(lab + "the first node of the first interval", L.init[kb], ZERO, w)
    ck.same(lab + "the number of nodes of the first interval", L.init[kn], Ki(ZERO), w)
    adv = and_(last, more)
    same(lab + "inside an interval: same interval", L.end[kv], v, not_(last))
    same(lab + "inside an interval: same first node", L.end[kb], b, not_(last))
    same(lab + "inside an interval: same number of nodes", L.end[kn], n, not_(last))
    same(lab + "at the end of an interval: next interval", L.end[kv], v + 1, adv)
    same(lab + "at the end of an interval: first node of the next one", L.end[kb], b + n, adv)
    same(lab + "at the end of an interval: number of nodes of the next one", L.end[kn], Ki(v + 1), adv)
    # ---- what is added for the state k: to the rows of the nodes of its interval, of both intervals at their common point
    a = generic("c", N)
    gi.update(GI)
    r = generic("b", NX)
    gi.update(GI)
    pos = lambda v, b: and_(ge(a - b, 0), gt(b + Ki(v) - a, 0))
    coef = lambda v, b: -fn("iw", v, a - b) * fn("alpha", v) * fn("Dus", v, k - b, a - b)
    old, new = ite(pos(v, b), coef(v, b), ZERO), ite(pos(v + 1, b + n), coef(v + 1, b + n), ZERO)
    before = gt(N - k, 0)
    (ka,), (ba,) = atoms_of(k), atoms_of(b)
    g = gidx("g", n, gi)
    inside = gt(N - b - g, 0)
    for what, fix, u, want in (("last state", {ka: N, ba: N - n}, TRUE, old), ("inside an interval", {ka: b + g}, inside, old),
                               ("between two intervals", {ka: b + n}, and_(gt(N - b - n, 0), more), old + new)):
        kk = subst(k, fix)

        def put(name, got, want):
            G, W = subst(S(got), fix), subst(S(want), fix)
            ck.same(name, G, W, w, under=subst_b(S(u), fix), gi=gi)
        d = L.end[key["F"]].at(NX * a + r) - L.heads[key["F"]].at(NX * a + r)
        put(lab + "F: contribution of a state, %s" % what, d, want * x(k).at(r))
        if K > 0:
            for c in range(NX):
                M, H = L.end[key["dF"]], L.heads[key["dF"]]
                rc = (NX * a + r, 2 + NX * k + c)
                put(lab + "dF by x%d: contribution of a state, %s" % (c, what), M.at(*rc) - H.at(*rc), ite(eq(r, c), want, ZERO))
                for nm, k2 in (("earlier", gidx("e", kk, gi)), ("later", kk + 1 + gidx("l", N - kk, gi))):
                    rc = (NX * a + r, 2 + NX * k2 + c)
                    put(lab + "dF by x%d of %s states: unchanged, %s" % (c, nm, what), M.at(*rc), H.at(*rc))
            for c in (0, 1):
                put(lab + "dF by %s: unchanged, %s" % (("t0", "tf")[c], what), M.at(NX * a + r, P(c)), H.at(NX * a + r, P(c)))
            for c in range(NU):
                rc = (NX * a + r, 2 + NX * (N + 1) + NU * gidx("d", N, gi) + c)
                put(lab + "dF by u%d: unchanged, %s" % (c, what), M.at(*rc), H.at(*rc))
    for nm in key:
        aft = L.after.get(key[nm])
        if not isinstance(aft, T):
            ck.undecided(lab + "%s after the loop" % nm, w, repr(aft))
        else:
            ck.same_t(lab + "%s after the loop" % nm, T(o[nm].rows, o[nm].cols, o[nm].at), T(aft.rows, aft.cols, aft.at), w)


def dyn_error(ck, p):
    fs = [f for f in p.funcs.values() if f["name"] == "mesh_dyn_error" and f.get("body")]
    if not fs:
        raise AnchorMissing("mesh_dyn_error")
    for f in fs:
        w = p.loc(f)
        role = dict(zip([q["name"] for q in f["ps"]], ["f", "m", "t0", "tf", "xfun", "ufun"]))
        I = start(p)
        for q in f["ps"]:
            r = role[q["name"]]
            I.st.roots[q["name"]] = UserFn(r) if r in ("f", "xfun", "ufun") else I.symbolic(p.types[q["t"]], r)
        out = I.run(f, argvals=[LV(q["name"]) for q in f["ps"]])
        if bad(I):
            ck.undecided("constructs not understood", w, str(bad(I)[:3]))
        if not isinstance(out, T):
            ck.undecided("error per interval", w, repr(out))
            continue
        gi = {}
        k = gidx("a", NI, gi)
        n = Ki(k)
        t = lambda j: t0 + (tf - t0) * fn("itau", k, j)
        X = lambda j: tfn("xfun", NX, 1, [t(j)])
        F = lambda j: tfn("f", NF, 1, [t(j), lam(X(j)), lam(tfn("ufun", NU, 1, [t(j)]))])

        def big(g):
            v = tm.fresh("s")
            tm.RANGES[v] = (ZERO, n)
            return bigmax(v, ZERO, n, g(bv(v)))

        def isum(g):
            v = tm.fresh("s")
            tm.RANGES[v] = (ZERO, n)
            return tm.sum_(v, ZERO, n, g(bv(v)))

        def norm(g):
            v = tm.fresh("s")
            tm.RANGES[v] = (ZERO, P(NX))
            return sqrt_(tm.sum_(v, ZERO, P(NX), g(bv(v)) * g(bv(v))))
        err = lambda c: norm(lambda r: X(ZERO).at(r) + (tf - t0) * isum(lambda q: F(q).at(r) * fn("Im", k, q, c)) - X(c + 1).at(r))
        want = big(err) / (ONE + big(lambda c: norm(lambda r: X(c + 1).at(r))))
        ck.same("one value per interval", out.rows, NI, w)
        ck.same("relative error of an interval", out.at(k), want, w, gi=gi)
    return ck


def leaves_of(e):
    """values of nested case distinctions"""
    if len(e.terms) == 1:
        ((b, f), c), = e.terms.items()
        if not b and len(f) == 1 and f[0][1] == 1 and f[0][0][0] == "ite" and c == 1:
            return leaves_of(f[0][0][2]) + leaves_of(f[0][0][3])
    return [e]
