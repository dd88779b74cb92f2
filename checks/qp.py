"""Obligations on QPSolver (properties Q..)"""
import multiprocessing
import os
from sa.framework import *
from sa import evalt
from .qpmodel import *


def blk(t, r0, c0, nr, nc):
    return T(nr, nc, lambda i, j: t.at(P(i) + r0, P(j) + c0))


def nm(M, s):
    return "%s: %s" % (M.label, s)


def enum_codes(p):
    for t in p.types:
        if t.get("k") == "enum" and t.get("ev") and t.get("name", "").endswith("QPSolutionStatus"):
            ev = t["ev"]
            if all(c in ev for c in CODES):
                return {c: P(int(ev[c])) for c in CODES}
    raise AnchorMissing("enum QPSolutionStatus")


def opts(M, **kw):
    d = dict(dims=M.evdims(), inf=M.INF)
    d.update(kw)
    return d


def is_eq(a, b):
    return and_(ge(a - b, 0), ge(b - a, 0))


# ------------------------------------------------------------------------------------- iteration

def solve_in_loop(M):
    """(name, matrix, right-hand side) of the linear solve used by the iteration"""
    out = sorted(x for x in (evalt.direct_names(M.full(M.X1).gen()) | evalt.direct_names(M.full(M.Y1).gen()))
                 if x.startswith("SOL"))
    if len(out) != 1:
        raise AnchorMissing("the linear solve of the iteration (%s)" % out)
    key, rhs = M.I.solve_info[out[0]]
    H = M.I.mat_of(key)
    return out[0], M.full(H) if H is not None else None, M.full(rhs), key


def effective(M, ck, what, H, key, w):
    """the symmetric matrix (its upper triangle) the factorization works with"""
    tri = key.split(":")[1]
    if tri == "1":
        return T(H.rows, H.cols, lambda i, j: H.at(j, i))
    if tri != "2":
        ck.same_t(nm(M, "%s is symmetric" % what), H, T(H.rows, H.cols, lambda i, j: H.at(j, i)), w, split=True, **opts(M))
    return H


def g_kkt(M, ck):
    """matrix and right-hand side of the iteration's linear system"""
    name, H, rhs, key = solve_in_loop(M)
    n, m = M.n, M.m
    if H is None:
        return ck.undecided(nm(M, "factorized matrix"), M.where, key)
    w = [e[3] for e in M.I.events if e[0] in ("compute", "factorize") and e[1] == key]
    w = w[0] if w else M.where
    W = M.spec_H()
    H = effective(M, ck, "system matrix", H, key, w)
    up = lambda i, j: ge(P(j) - P(i), 0)
    o = opts(M)
    ck.same_t(nm(M, "H upper left = c Sx P Sx + sigma I"), blk(H, ZERO, ZERO, n, n), blk(W, ZERO, ZERO, n, n), w, under=up, split=True, **o)
    ck.same_t(nm(M, "H upper right = (Sy A Sx)^T"), blk(H, ZERO, n, n, m), blk(W, ZERO, n, n, m), w, **o)
    ck.same_t(nm(M, "H lower right = -diag(1/rho)"), blk(H, n, n, m, m), blk(W, n, n, m, m), w, under=up, split=True, **o)
    ck.same(nm(M, "H rows"), H.rows, n + m, w, **o)
    R = M.spec_rhs(M.X, M.Y, M.Z)
    ck.same_t(nm(M, "rhs first block = sigma x - c Sx q"), blk(rhs, ZERO, ZERO, n, ONE), blk(R, ZERO, ZERO, n, ONE), M.lwhere, **o)
    ck.same_t(nm(M, "rhs second block = z - y/rho"), blk(rhs, n, ZERO, m, ONE), blk(R, n, ZERO, m, ONE), M.lwhere, **o)


def spec_step(M, name):
    S = T.base(name, M.n + M.m, ONE)
    al = M.prm("alpha")
    rho = M.spec_rho()
    X1 = T(M.n, ONE, lambda i, j: al * S.at(i) + (ONE - al) * M.X.at(i))

    def fz(i, j):
        v = al * S.at(M.n + P(i)) * inv(rho.at(i)) + (ONE - al) * M.Y.at(i) * inv(rho.at(i)) + M.Z.at(i)
        return minof([maxof([v, M.sy.at(i) * M.l.at(i)]), M.sy.at(i) * M.u.at(i)])
    Z1 = T(M.m, ONE, fz)
    Y1 = T(M.m, ONE, lambda i, j: (ONE - al) * M.Y.at(i) + al * S.at(M.n + P(i)) + rho.at(i) * (M.Z.at(i) - Z1.at(i)))
    return X1, Y1, Z1


def g_step(M, ck):
    name, H, rhs, key = solve_in_loop(M)
    X1, Y1, Z1 = spec_step(M, name)
    gx, gy, gz = M.full(M.X1), M.full(M.Y1), M.full(M.Z1)
    o = opts(M)
    # l > u is reported as infeasible before the first iteration: the order of clamping is irrelevant there
    ok = lambda i, j: and_(ge(M.u.at(i) - M.l.at(i), 0), not_(isinf(M.l.at(i), 1)), not_(isinf(M.u.at(i), -1)))
    ck.same_t(nm(M, "x' = alpha x~ + (1-alpha) x"), gx, X1, M.lwhere, **o)
    ck.same_t(nm(M, "z' = clamp(alpha nu/rho + (1-alpha) y/rho + z, Sy l, Sy u)"), gz, Z1, M.lwhere, under=ok, **o)
    ck.same_t(nm(M, "y' = (1-alpha) y + alpha nu + rho z - rho z'"), gy, Y1, M.lwhere, under=ok, **o)


# ------------------------------------------------------------------------------------- start

def g_init(M, ck):
    o = opts(M, fixed={"ws.has": True})
    ws = bsym("ws.has")
    wx, wy = T.base("ws.val.primal", M.n, ONE), T.base("ws.val.dual", M.m, ONE)
    x0 = T(M.n, ONE, lambda i, j: wx.at(i) * inv(M.sx.at(i)))
    y0 = T(M.m, ONE, lambda i, j: M.c * wy.at(i) * inv(M.sy.at(i)))
    Ax = tmul(M.A, wx)
    z0 = T(M.m, ONE, lambda i, j: M.sy.at(i) * Ax.at(i))
    w = M.where
    on = lambda i, j: ws
    off = lambda i, j: not_(ws)
    ck.same_t(nm(M, "warm start: x0 = Sx^-1 x_ws"), M.full(M.X0), x0, w, under=on, **o)
    ck.same_t(nm(M, "warm start: y0 = c Sy^-1 y_ws"), M.full(M.Y0), y0, w, under=on, **o)
    ck.same_t(nm(M, "warm start: z0 = Sy A x_ws"), M.full(M.Z0), z0, w, under=on, **o)
    o = opts(M, fixed={"ws.has": False})
    for s, v, r in (("x0", M.X0, M.n), ("y0", M.Y0, M.m), ("z0", M.Z0, M.m)):
        ck.same_t(nm(M, "cold start: %s = 0" % s), M.full(v), tconst(r, ONE, ZERO), w, under=off, **o)
    ck.same(nm(M, "iteration counter starts at 0"), M.L.init[M.kIter], ZERO, w)
    ck.same(nm(M, "iteration counter counts iterations"), M.L.end[M.kIter], M.iter + 1, M.lwhere)


def g_alias(M, ck):
    """(alias models only) the guess is sol(), a member of the solver itself"""
    o = opts(M)
    pre = M.pre.fields[M.f_sol].fields
    wx, wy = pre["primal"], pre["dual"]
    w = M.where
    Ax = tmul(M.A, wx)
    ck.same_t(nm(M, "warm start from sol(): x0 = Sx^-1 x_ws"), M.full(M.X0), T(M.n, ONE, lambda i, j: wx.at(i) * inv(M.sx.at(i))), w, **o)
    ck.same_t(nm(M, "warm start from sol(): y0 = c Sy^-1 y_ws"), M.full(M.Y0), T(M.m, ONE, lambda i, j: M.c * wy.at(i) * inv(M.sy.at(i))), w, **o)
    ck.same_t(nm(M, "warm start from sol(): z0 = Sy A x_ws"), M.full(M.Z0), T(M.m, ONE, lambda i, j: M.sy.at(i) * Ax.at(i)), w, **o)


def g_ws_only(M, ck):
    """the guess reaches results only through the initial iterates"""
    H = solve_in_loop(M)[1]
    for what, x in (("system matrix", H), ("cost scaling", cdef(M))):
        d = [y for y in evalt.direct_names_any(M.full(x)) if y.startswith("ws.")]
        ck.rule(nm(M, "%s does not depend on the guess" % what), not d, M.where, str(d))
    for r in M.I.loops:
        if r is M.L or getattr(r, "closed", False):
            continue
        d = sorted({y for v in [z[k] for z in (r.end, r.init) for k in r.heads if k in z] if isinstance(v, (Poly, T, Bool))
                    for y in evalt.direct_names_any(M.full(v)) if y.startswith("ws.")})
        ck.rule(nm(M, "scaling does not depend on the guess"), not d, "%s:%s" % (r.file, r.line), str(d))
    live = [("the next iterates", x) for x in (M.X1, M.Y1, M.Z1)]
    live += [("the stopping decision", M.at_end(M.L.cond)), ("the reported status", M.at_end(M.ret.fields["code"]))]
    live += [("the returned " + k, M.ret.fields[k]) for k in ("primal", "dual", "objective", "iter")]
    for what, x in live:
        d = [y for y in evalt.direct_names_any(M.full(x)) if y.startswith("ws.")]
        ck.rule(nm(M, "%s only depend(s) on the guess through the iterates" % what), not d, M.lwhere, str(d))


def cdef(M):
    """the definition of the cost scaling factor"""
    for n in evalt.direct_names(M.c):
        if n in M.I.lets:
            return M.I.expand(M.I.lets[n])
    return M.c


def loc_of(M, sub):
    return M.where


# ------------------------------------------------------------------------------------- stopping

def due(M):
    s = M.prm("stop_check_iter")
    cs = maxof([ONE, s])
    return is_eq(tm.fn("mod", M.iter, cs), tm.fn("mod", ONE, cs))


def head_ok(M):
    return M.part(M.L.cond)


def time_terms(M, x):
    """(start, now) clock readings compared in x, or None when the time limit is not consulted"""
    nows = [(n, e) for n, e in enumerate(M.I.events) if e[0] == "now"]
    fac = [n for n, e in enumerate(M.I.events) if e[0] in ("compute", "factorize", "analyzePattern")]
    used = [q for q in evalt.direct_names(x) if q.startswith("now")]
    first = [e[1] for n, e in nows if not fac or n < fac[0]]
    st = [e for e in first if name_of(e) in used]
    oth = [e[1] for n, e in nows if name_of(e[1]) in used and e[1] not in first]
    return (st, oth, used)


def name_of(s):
    (k, _), = s.terms.items()
    return k[1][0][0][1]


def max_time(M):
    o = M.prm("max_time")
    return o.has, o.val


def code0(M):
    return subst(M.part(M.ret.fields["code"]), TSub(bools={"this.%s.polish" % M.f_prm: FALSE}))


def stop_parts(M):
    x, y, z = M.user_x(M.X1), M.user_y(M.Y1), M.user_z(M.Z1)
    dx = M.user_x(tsub(M.X1, M.X))
    dy = M.user_y(tsub(M.Y1, M.Y))
    return M.opt_cond(x, y, z), M.pinf_cond(dy), M.dinf_cond(dx)


def g_stop(M, ck, codes):
    """what ends the iteration, and the status reported for it"""
    o = opts(M)
    dz = due(M)
    opt, pinf, dinf = stop_parts(M)
    mi = M.prm("max_iter")
    stop1 = not_(M.at_end(M.L.cond))
    c0 = code0(M)
    c1 = M.at_end(c0)
    head = head_ok(M)
    lim = and_(mi.has, is_eq(M.iter + 1, mi.val))
    th, tv = max_time(M)
    st, oth, used = time_terms(M, stop1)
    if not used:
        ck.violated(nm(M, "time limit is consulted"), M.lwhere, "no clock reading reaches the loop condition")
        late = FALSE
    elif len(st) != 1 or len(oth) != 1:
        ck.violated(nm(M, "time limit compares the time since the start of solve"), M.lwhere,
                    "clock readings compared: %s" % used) if not oth or not st else \
            ck.undecided(nm(M, "time limit"), M.lwhere, str(used))
        late = FALSE
    else:
        late = gt(oth[0] - st[0] - tv, 0)
    fx = {"this.%s.max_time.has" % M.f_prm: True}
    r = or_(opt, pinf, dinf)
    nt = not_(th)
    U = and_(head, dz)
    w = M.lwhere
    o2 = dict(o, tries=1500)
    noti = not_(lim)
    base = and_(head, nt, noti)
    ck.same(nm(M, "continues between checks"), stop1, FALSE, w, under=and_(head, noti, not_(dz)), **o2)
    ck.same(nm(M, "stops at a check iff a criterion of the caller's problem holds"), stop1, r, w, under=and_(base, dz), **o2)
    ck.same(nm(M, "stops at the iteration limit"), stop1, TRUE, w, under=and_(head, lim), **o2)
    ck.same(nm(M, "iteration limit without a decision is reported as MaxIterations"), c1, codes["MaxIterations"], w,
            under=and_(head, lim, nt, not_(dz)), **o2)
    ck.same(nm(M, "iteration limit at an undecided check is reported as MaxIterations"), c1, codes["MaxIterations"], w,
            under=and_(head, lim, nt, dz, not_(r)), **o2)
    ck.same(nm(M, "Optimal iff the optimality criteria hold"), is_eq(c1, codes["Optimal"]), opt, w,
            under=and_(head, dz, stop1), **o2)
    ck.same(nm(M, "PrimalInfeasible iff there is a certificate"), is_eq(c1, codes["PrimalInfeasible"]), and_(not_(opt), pinf), w,
            under=and_(head, dz, stop1), **o2)
    ck.same(nm(M, "DualInfeasible iff there is a certificate"), is_eq(c1, codes["DualInfeasible"]),
            and_(not_(opt), not_(pinf), dinf), w, under=and_(head, dz, stop1), **o2)
    # time limit
    nr = not_(r)
    for cmpf, txt in ((late, ">"), (ge(late_val(late), 0) if late is not FALSE else FALSE, ">=")):
        e = tm_equal(and_(head, dz, nr, noti, th, stop1), and_(head, dz, nr, noti, th, cmpf))
        if e:
            ck.holds(nm(M, "stops at a check when the time limit has passed"), w, "normal form")
            late = cmpf
            break
    else:
        ck.same(nm(M, "stops at a check when the time limit has passed"), stop1, late, w,
                under=and_(head, dz, nr, noti, th), **o2)
    ck.same(nm(M, "time limit is reported as MaxTime"), c1, codes["MaxTime"], w,
            under=and_(head, dz, nr, th, late), **o2)


def late_val(b):
    return b.a if isinstance(b, Bool) and b.kind == "gt" else ZERO


def tm_equal(a, b):
    try:
        return tm.equal(a, b, limit=3000) is None
    except (OverflowError, RecursionError):
        return False


def g_start_status(M, ck, codes):
    """problems that are decided before the first iteration"""
    o = opts(M, tries=1500)
    w = M.where
    stop0 = not_(M.at_init(M.L.cond))
    c0 = M.at_init(code0(M))
    k = fresh("r")
    tm.RANGES[k] = (ZERO, M.m)
    b = bv(k)
    l, u = M.l.at(b), M.u.at(b)
    triv = exists_f(k, ZERO, M.m, or_(isinf(l, 1), isinf(u, -1), gt(l - u, 0)))
    key = solve_in_loop(M)[3]
    info = tm.fn("info", lib.StrKey(key))
    bad = not_(is_eq(info, ZERO))
    mi = M.prm("max_iter")
    lim0 = and_(mi.has, is_eq(mi.val, ZERO))
    ck.same(nm(M, "no iteration iff bounds are contradictory, factorization failed, or max_iter = 0"),
            stop0, or_(triv, bad, lim0), w, **o)
    ck.same(nm(M, "contradictory bounds are reported as PrimalInfeasible"), c0, codes["PrimalInfeasible"], w,
            under=and_(triv, not_(bad)), **o)
    ck.same(nm(M, "a failed factorization is reported as Unknown"), c0, codes["Unknown"], w,
            under=and_(bad, not_(triv)), **o)
    ck.same(nm(M, "no other status is invented"), c0, codes["MaxIterations"], w,
            under=and_(not_(bad), not_(triv)), **o)


def g_check_schedule(M, ck):
    """the checks happen regularly for every value of stop_check_iter"""
    s = M.prm("stop_check_iter")
    bad = []
    for x in [M.at_end(M.L.cond)] + [v for v in M.L.end.values() if isinstance(v, (Poly, Bool))]:
        for a in tm.atoms_of(x):
            if a[0] == "fn" and a[1] in ("mod", "idiv"):
                d = a[2][1]
                if not ge(d - 1, 0).is_true() and d not in bad:
                    bad.append(d)
    ck.rule(nm(M, "no remainder by a number that can be zero"), not bad, M.lwhere,
            "divisors that may be zero: %s" % [show(x, 200) for x in bad])


# ------------------------------------------------------------------------------------- results

def g_final(M, ck):
    pol = TSub(bools={"this.%s.polish" % M.f_prm: FALSE})
    o = opts(M)
    w = M.where
    prim, dual = M.full(M.ret.fields["primal"]), M.full(M.ret.fields["dual"])
    p0 = T(prim.rows, prim.cols, lambda i, j: subst(prim.at(i, j), pol))
    d0 = T(dual.rows, dual.cols, lambda i, j: subst(dual.at(i, j), pol))
    ck.same_t(nm(M, "returned primal = Sx x"), p0, M.user_x(M.X), w, **o)
    ck.same_t(nm(M, "returned dual = Sy y / c"), d0, M.user_y(M.Y), w, **o)
    ck.same(nm(M, "returned iteration count"), M.ret.fields["iter"], M.iter, w, **o)
    # objective of the point that is returned (polished or not)
    pt = M.ret.fields["primal"]
    obj, pt = M.full(M.ret.fields["objective"]), M.full(pt)
    want = P(Fraction(1, 2)) * tdot(pt, tmul(M.Psym(), pt)) + tdot(M.q, pt)
    ck.same(nm(M, "returned objective = x'Px/2 + q'x at the returned x"), obj, want, w, **o)
    so = M.post.fields[M.f_sol]
    for k in ("code", "iter", "objective", "primal", "dual"):
        if k not in so.fields:
            raise AnchorMissing("solution member %s" % k)
        a, b = so.fields[k], M.ret.fields[k]
        (ck.same_t if isinstance(b, T) else ck.same)(nm(M, "sol() reports the returned %s" % k), a, b, w, **o)


def g_positive(M, ck):
    """scaling factors are positive (so that scaling is invertible)"""
    w = M.where
    for s, v in (("cost scaling", cdef(M)), ("variable scaling", M.sx.at(gidx("a", M.n))), ("constraint scaling", M.sy.at(gidx("a", M.m)))):
        name = nm(M, "%s factors are positive and finite" % s)
        if tm.positive(v):
            ck.holds(name, w, "sign analysis, induction over the scaling loop")
            continue
        vv = M.I.expand(v)
        rec = [r for r in M.I.loops if getattr(r, "outs", None) and any(isinstance(x, T) and x.name in evalt.direct_names(vv) for x in r.outs.values())]
        # the value after one more pass of the scaling loop, from positive factors
        ex = vv
        gi = {}
        for r in rec:
            for k, x in r.outs.items():
                if isinstance(x, T) and x.name in evalt.direct_names(vv):
                    ex = M.I.expand(r.end[k]).at(gidx("a", x.rows, gi))
                    for h in r.heads.values():
                        if isinstance(h, T) and (h.rows == M.n or h.rows == M.m):
                            tm.POS_SYMS.add(h.name)
        e = evalt.separate(gt(ex, 0), TRUE, dims=M.evdims(), inf=M.INF, gi=gi)
        if e is not None and not evalt.opaque_names(ex):
            ck.violated(name, w, "can be non-positive: %s e.g. for %s" % (show(ex, 600), evalt.describe(e[0], e[1])))
        else:
            ck.undecided(name, w, show(v, 400))


def g_noscale(M, ck):
    """without scaling the factors stay one; analyze() re-establishes it"""
    if not M.scaled:
        for s, v in (("c", M.c), ("sx", M.sx.gen()), ("sy", M.sy.gen())):
            ck.same(nm(M, "%s = 1 when scaling is off" % s), v, ONE, M.where, **opts(M))
    else:
        for k, v in M.reused.fields.items():
            if k in M.ones:
                x = v if isinstance(v, Poly) else v.gen()
                ck.same(nm(M, "analyze resets %s" % ("c" if isinstance(v, Poly) else "scaling vector of size %s" % show(v.rows))),
                        x, ONE, M.p.loc(M.f_analyze), **opts(M))


# ------------------------------------------------------------------------------------- history

def leafname(M, h):
    return h.a if isinstance(h, Bool) else M.I.leaf_name(h)


def stale_names(M, x, okheads):
    """symbols in x for what earlier calls (or earlier iterations, beyond the iterates) left behind"""
    ok = "this.%s." % M.f_prm
    heads = {leafname(M, h) for h in M.L.heads.values()} - {leafname(M, h) for h in okheads}
    return {s for s in evalt.direct_names_any(x) if (s.startswith("this.") and not s.startswith(ok)) or s in heads}


def history_free(M, ck, what, x, where, okheads=None, under=TRUE):
    """x does not depend on what earlier calls left in the object"""
    ok = [M.X, M.Y, M.Z, M.iter] if okheads is None else okheads
    bad = stale_names(M, x, ok)
    if not bad:
        return ck.holds(nm(M, what), where, "no occurrence")
    if isinstance(x, T):
        gi = {}
        i, j = (gidx("a", x.rows, gi) if x.rows != ONE else ZERO), (gidx("b", x.cols, gi) if x.cols != ONE else ZERO)
        e = x.at(i, j)
    else:
        e, gi = x, {}
    if not under.is_true():
        e = tm.assume_all(e, under)
    return ck.same(nm(M, what), e, rename_state(e, bad), where, gi=gi, under=under, **opts(M))


def rename_state(e, bad):
    s = TSub()
    for a in tm.atoms_of(e):
        if a[0] == "sym" and a[1] in bad:
            s[a] = sym("other." + a[1], a[1] in tm.INT_SYMS)
        elif a[0] == "bsym" and a[1] in bad:
            s.bools[a[1]] = bsym("other." + a[1])
        elif a[0] == "el" and a[1] in bad:
            s.tens[a[1]] = lambda *ix, nn="other." + a[1]: tm.el(nn, *ix)
    return subst(e, s) if isinstance(e, Poly) else subst_b(e, s)


def g_history(M, ck):
    name, H, rhs, key = solve_in_loop(M)
    w = M.where
    up = T(H.rows, H.cols, lambda i, j: ite(ge(P(j) - P(i), 0), H.at(i, j), ZERO))
    history_free(M, ck, "system matrix independent of earlier solves", up, w)
    history_free(M, ck, "right-hand side independent of earlier solves", rhs, M.lwhere)
    for s, v in (("x0", M.X0), ("y0", M.Y0), ("z0", M.Z0)):
        history_free(M, ck, "initial %s independent of earlier solves" % s, M.full(v), w, [])
    for s, v in (("x'", M.X1), ("y'", M.Y1), ("z'", M.Z1)):
        history_free(M, ck, "iterate %s independent of earlier solves" % s, M.full(v), M.lwhere)
    head = M.part(M.L.cond)
    stop = not_(M.at_end(M.L.cond))
    rets = [h for k, h in M.L.heads.items() if leafname(M, h) in evalt.direct_names(M.part(M.ret.fields["code"]))]
    live = [M.X, M.Y, M.Z, M.iter] + rets
    dz = due(M)
    nd = not_(dz)
    cases = [("at a check", dz)] + [("between checks (%d)" % (i + 1), x) for i, x in enumerate(nd.a if nd.kind == "or" else [nd])
                                    if not x.is_false()]
    c1 = M.at_end(code0(M))
    for txt, u in cases:
        u = and_(head, u)
        st = tm.assume_all(stop, u)
        history_free(M, ck, "stopping decision independent of earlier solves " + txt, st, M.lwhere, live, u)
        history_free(M, ck, "status independent of earlier solves " + txt,
                     ite(st, tm.assume_all(c1, u), ZERO), w, live, u)
    stop0 = not_(M.at_init(M.L.cond))
    history_free(M, ck, "initial stopping decision independent of earlier solves", stop0, w, [])
    c0 = ite(stop0, M.at_init(code0(M)), ZERO)
    history_free(M, ck, "initial status independent of earlier solves", c0, w, [])
    for k in ("primal", "dual", "objective", "code"):
        history_free(M, ck, "returned %s independent of earlier solves" % k, M.full(M.ret.fields[k]), w, live)
    if M.scaled:
        history_free(M, ck, "cost scaling independent of earlier solves", cdef(M), w, [])
    for r in M.I.loops:
        # other iterative loops (scaling): the locations their results depend on start from fresh values
        if r is M.L or getattr(r, "closed", False):
            continue
        outs = getattr(r, "outs", {})
        wl = [k for k in outs if k[-1].split("~")[0] in (getattr(M, "f_sx", ""), getattr(M, "f_sy", ""))]
        seen = set()
        todo = list(wl)
        byname = {leafname(M, h): k for k, h in r.heads.items()}
        cn = evalt.direct_names_any(M.full(r.cond)) if isinstance(r.cond, Bool) else set()
        todo += [byname[x] for x in cn if x in byname]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for x in evalt.direct_names_any(M.full(r.end.get(k, r.heads[k]))):
                if x in byname:
                    todo.append(byname[x])
        for k in sorted(seen, key=str):
            wr = "%s:%s" % (r.file, r.line)
            history_free(M, ck, "%s: %s starts from a fresh value" % (r.fname, k[-1].split("~")[0]), M.full(r.init[k]), wr, [])
            history_free(M, ck, "%s: %s updated from fresh values" % (r.fname, k[-1].split("~")[0]), M.full(r.end[k]), wr, [])
    for key2, mat in polish_systems(M):
        history_free(M, ck, "polishing system independent of earlier solves", M.full(mat), w, live)
    g_noscale(M, ck)
    settings_kept(M, ck)
    if M.sparse:
        g_pattern(M, ck)


def g_pattern(M, ck):
    """the symbolic factorization in use belongs to the current problem structure"""
    ev = [e for e in M.I.events if e[0] in ("compute", "factorize", "analyzePattern")]
    first = None
    for f, v in M.pre.fields.items():
        if isinstance(v, Rec) and "first" in v.fields:
            first = v.fields["first"]
    fac = [e for e in ev if e[0] == "factorize"]
    if not fac:
        return ck.undecided(nm(M, "symbolic factorization"), M.where, "no factorize call")
    fe = fac[0]
    idx = ev.index(fe)
    pats = [e for e in ev[:idx] if e[0] == "analyzePattern"]
    fresh_c = or_(*[e[2] for e in pats]) if pats else FALSE
    # analyze() must make the next solve redo it
    flags = [k for k, v in flag_leaves(M.pre)]
    used = {a[1] for a in tm.atoms_of(fresh_c) if a[0] == "bsym"} if not fresh_c.is_true() else set()
    if fresh_c.is_true():
        return ck.holds(nm(M, "symbolic factorization is redone in every solve"), fe[3])
    if not pats:
        return ck.violated(nm(M, "symbolic factorization is computed"), fe[3], "factorize without analyzePattern")
    ok = True
    for st, txt in ((M.reused, "analyze() on a used solver"), (M.fresh, "analyze() on a new solver")):
        lv = dict(flag_leaves(st))
        s = TSub()
        for k, v in lv.items():
            if isinstance(v, Bool):
                s.bools["this." + k] = v
        c = subst_b(fresh_c, s)
        rest = {n for n in tm.names_of(c) if n.startswith("this.") and not n.startswith("this." + M.f_prm)}
        if c.is_true():
            ck.holds(nm(M, "symbolic factorization is redone after %s" % txt), fe[3])
        elif rest or c.is_false():
            ck.violated(nm(M, "symbolic factorization is redone after %s" % txt), fe[3],
                        "analyzePattern only happens when %s" % show(c, 300))
        else:
            ck.undecided(nm(M, "symbolic factorization is redone after %s" % txt), fe[3], show(c, 300))


def flag_leaves(v, pre=""):
    out = []
    if isinstance(v, Rec):
        for k, x in v.fields.items():
            out += flag_leaves(x, pre + ("." if pre else "") + k)
    elif isinstance(v, Bool):
        out.append((pre, v))
    return out


# ------------------------------------------------------------------------------------- symmetry

def g_upper(M, ck):
    """nothing computed by solve depends on entries of P below the diagonal"""
    name, H, rhs, key = solve_in_loop(M)
    w = M.where

    def garb(e):
        def f(*ix):
            i, j = ix
            return ite(ge(P(j) - P(i), 0), tm.el("pbm.P", i, j), tm.el("GARBAGE", i, j))
        s = TSub(tens={"pbm.P": f})
        if isinstance(e, Bool):
            return subst_b(e, s)
        return subst(e, s)

    def chk(what, x, where, upper=None):
        x = M.full(x)
        if isinstance(x, T):
            gi = {}
            i, j = (gidx("a", x.rows, gi) if x.rows != ONE else ZERO), (gidx("b", x.cols, gi) if x.cols != ONE else ZERO)
            e = x.at(i, j)
            # only the triangle the factorization reads matters
            und = ge(j - i, 0) if upper == "2" else ge(i - j, 0) if upper == "1" else TRUE
        else:
            e, gi, und = x, {}, TRUE
        if "pbm.P" not in evalt.direct_names(e):
            return ck.holds(nm(M, what), where, "P does not occur")
        ck.same(nm(M, what), e, garb(e), where, under=und, gi=gi, **opts(M))
    chk("system matrix uses only the upper triangle of P", H, w, key.split(":")[1])
    chk("right-hand side uses only the upper triangle of P", rhs, M.lwhere)
    for s, v in (("x", M.X1), ("y", M.Y1), ("z", M.Z1), ("x0", M.X0), ("y0", M.Y0), ("z0", M.Z0)):
        chk("iterate %s uses only the upper triangle of P" % s, v, M.lwhere)
    c1 = M.at_end(M.L.cond)
    if "pbm.P" in evalt.direct_names(c1):
        ck.same(nm(M, "stopping tests use only the upper triangle of P"), c1, garb(c1), M.lwhere, under=head_ok(M), **opts(M))
    else:
        ck.holds(nm(M, "stopping tests use only the upper triangle of P"), M.lwhere, "lower triangle does not occur")
    for k in ("objective", "primal", "dual"):
        x = M.ret.fields[k]
        kp = {M.ret.fields["primal"].name} & set(M.I.lets) if k == "objective" else set()
        chk("%s uses only the upper triangle of P" % k, M.I.expand(x, M.clet | kp), w)
    if M.scaled:
        chk("cost scaling uses only the upper triangle of P", cdef(M), w)
    for r in M.I.loops:
        if r.post or not getattr(r, "closed", False):
            for k, e in (r.end or {}).items():
                if k in r.heads and isinstance(e, (Poly, T)) and r is not M.L:
                    chk("%s: %s uses only the upper triangle of P" % (r.fname, k[-1].split("~")[0]), e, "%s:%s" % (r.file, r.line))
    for key2, T2 in polish_systems(M):
        chk("polishing matrix uses only the upper triangle of P", T2, w, key2.split(":")[1])


def polish_systems(M):
    key0 = solve_in_loop(M)[3]
    out = {}
    for s, (k, rhs) in M.I.solve_info.items():
        if k != key0:
            m = M.I.mat_of(k)
            if m is not None:
                out[k] = m
    return list(out.items())


# ------------------------------------------------------------------------------------- polishing

def g_polish(M, ck, codes):
    """polishing solves the KKT system restricted to the active constraints"""
    I = M.I
    w = M.where
    sysl = polish_systems(M)
    if len(sysl) != 1:
        if not sysl:
            return ck.violated(nm(M, "polishing solves a linear system"), w, "no factorization besides the iteration's")
        return ck.undecided(nm(M, "polishing system"), w, str([k for k, _ in sysl]))
    key, Hp = sysl[0]
    rets = [h for k, h in M.L.heads.items() if leafname(M, h) in evalt.direct_names(M.part(M.ret.fields["code"]))]
    polish = "this.%s.polish" % M.f_prm
    # status
    code = M.part(M.ret.fields["code"])
    c0 = code0(M)
    isopt = is_eq(c0, codes["Optimal"])
    pol = bsym(polish)
    info = tm.fn("info", lib.StrKey(key))
    bad = not_(is_eq(info, ZERO))
    ck.same(nm(M, "polishing is only attempted on optimal points and only its failure changes the status"), code,
            ite(and_(isopt, pol, bad), codes["PolishFailed"], c0), w, **opts(M))
    did = and_(isopt, pol, not_(bad))
    sc = [x for x in I.scatters if x in evalt.direct_names(I.expand(Hp.gen(), M.clet | set(I.scatters)))]
    if len(sc) != 1:
        return ck.undecided(nm(M, "index list of active constraints"), w, str(sc))
    lu = sc[0]
    keep = M.clet | {lu}
    X = lambda x: I.expand(x, keep)
    n, m = M.n, M.m
    tol = P(Fraction(100)) * lib_eps()
    y = M.Y

    def lo_act(i):
        return and_(gt(-tol - y.at(i), 0), not_(isinf(M.l.at(i), -1)))

    def up_act(i):
        return and_(gt(y.at(i) - tol, 0), not_(isinf(M.u.at(i), 1)))

    def count(f, hi):
        k = fresh("c")
        tm.RANGES[k] = (ZERO, P(hi))
        return sum_(k, ZERO, hi, ite(f(bv(k)), ONE, ZERO))
    nl, nu = count(lo_act, m), count(up_act, m)
    o = opts(M)
    # index list
    d = I.lets[lu]
    base = sorted(x for x in evalt.direct_names(X(d.gen()) if False else I.expand(d.gen(), M.clet)) if x.startswith("uninit"))
    k = fresh("u")
    b0 = T.base(base[0], nl + nu, ONE) if base else tconst(nl + nu, ONE, ZERO)
    S = b0.with_upd(Upd([(k, ZERO, m)], (count_pre(lo_act, bv(k)), ZERO), lo_act(bv(k)), bv(k), "set"))
    k = fresh("u")
    S = S.with_upd(Upd([(k, ZERO, m)], (nl + count_pre(up_act, bv(k)), ZERO), up_act(bv(k)), bv(k), "set"))
    ck.same(nm(M, "number of active constraints"), d.rows, nl + nu, w, **o)
    ck.same_t(nm(M, "active constraints: lower active rows, then upper active rows"), I.expand(d, M.clet), S, w, **o)
    # system
    LU = T.base(lu, nl + nu, ONE)
    N = nl + nu
    Hx = X(Hp)
    Hx = effective(M, ck, "polishing matrix", Hx, key, w)
    dl = M.prm("delta")
    up = lambda i, j: ge(P(j) - P(i), 0)
    tl = T(n, n, lambda i, j: M.c * M.sx.at(i) * M.sx.at(j) * M.P_.at(i, j))
    tr = T(n, N, lambda i, j: M.sy.at(LU.at(j)) * M.sx.at(i) * M.A.at(LU.at(j), i))
    ck.same(nm(M, "polishing system size"), Hx.rows, n + N, w, **o)
    ck.same_t(nm(M, "polishing matrix upper left = c Sx P Sx + delta I"), blk(Hx, ZERO, ZERO, n, n),
              T(n, n, lambda i, j: tl.at(i, j) + dl * delta(i, j)), w, under=up, split=True, **o)
    ck.same_t(nm(M, "polishing matrix upper right = active rows of (Sy A Sx)^T"), blk(Hx, ZERO, n, n, N), tr, w, **o)
    ck.same_t(nm(M, "polishing matrix lower right = -delta I"), blk(Hx, n, n, N, N),
              T(N, N, lambda i, j: -dl * delta(i, j)), w, under=up, split=True, **o)
    # refinement loop
    loop = [r for r in I.loops if r is not M.L and any(uses_solve(I, v, key) for v in (r.end or {}).values())]
    if len(loop) != 1:
        return ck.undecided(nm(M, "iterative refinement"), w, "%d loops" % len(loop))
    r = loop[0]
    wr = "%s:%s" % (r.file, r.line)
    kt = [q for q, v in r.end.items() if uses_solve(I, v, key)]
    if len(kt) != 1:
        return ck.undecided(nm(M, "iterative refinement"), wr, "%d updated values" % len(kt))
    kt = kt[0]
    th = r.heads[kt]
    ck.same(nm(M, "number of refinement steps"), r.trip, M.prm("polish_iter"), wr, **o)
    ck.same_t(nm(M, "refinement starts at zero"), X(r.init[kt]), tconst(n + N, ONE, ZERO), wr, **o)
    sn = sorted(solves_of(I, r.end[kt], key))
    if len(sn) != 1:
        return ck.undecided(nm(M, "refinement step"), wr, str(sn))
    ck.same_t(nm(M, "refinement step adds the correction"), X(r.end[kt]),
              tadd(th, T.base(sn[0], n + N, ONE)), wr, **o)
    res = X(I.solve_info[sn[0]][1])
    g = lambda i: -M.c * M.sx.at(i) * M.q.at(i)

    def hl(i):
        return ite(lt(i, nl), M.sy.at(LU.at(i)) * M.l.at(LU.at(i)), M.sy.at(LU.at(i)) * M.u.at(LU.at(i)))

    def su(f, hi):
        v = fresh("s")
        tm.RANGES[v] = (ZERO, P(hi))
        return sum_(v, ZERO, hi, f(bv(v)))
    tsy = T(n, n, lambda i, j: M.c * M.sx.at(i) * M.sx.at(j) * ite(up(i, j), M.P_.at(i, j), M.P_.at(j, i)))
    r1 = T(n, ONE, lambda i, j: g(i) - su(lambda v: tsy.at(i, v) * th.at(v), n)
           - su(lambda v: tr.at(i, v) * th.at(n + v), N))
    r2 = T(N, ONE, lambda i, j: hl(i) - su(lambda v: tr.at(v, i) * th.at(v), n))
    ck.same_t(nm(M, "residual, first block = -c Sx q - (c Sx P Sx x + active A' y)"), blk(res, ZERO, ZERO, n, ONE), r1, wr, **o)
    ck.same_t(nm(M, "residual, second block = active bounds - active A x"), blk(res, n, ZERO, N, ONE), r2, wr, **o)
    # result
    tn = sorted(x for x in evalt.direct_names(X(M.ret.fields["primal"].gen())) if x.startswith("loopT"))
    if len(tn) != 1:
        return ck.undecided(nm(M, "polished point"), w, str(tn))
    t = T.base(tn[0], n + N, ONE)
    one = lambda i, j: did
    ck.same_t(nm(M, "polished primal = Sx x"), X(M.ret.fields["primal"]), M.user_x(T(n, ONE, lambda i, j: t.at(i))), w, under=one, **o)
    yp = T(m, ONE, lambda i, j: y.at(i))
    k = fresh("u")
    yp = yp.with_upd(Upd([(k, ZERO, nl)], (LU.at(bv(k)), ZERO), TRUE, t.at(n + bv(k)), "set"))
    k = fresh("u")
    yp = yp.with_upd(Upd([(k, ZERO, nu)], (LU.at(nl + bv(k)), ZERO), TRUE, t.at(n + nl + bv(k)), "set"))
    ck.same_t(nm(M, "polished dual: active entries = Sy y / c, others unchanged"), X(M.ret.fields["dual"]), M.user_y(yp), w, under=one, **o)
    no = lambda i, j: not_(did)
    # (depending on the refinement at all is wrong here: its result counts as a free variable)
    o = dict(o, free=set(tn))
    ck.same_t(nm(M, "unpolished primal otherwise"), X(M.ret.fields["primal"]), M.user_x(M.X), w, under=no, **o)
    ck.same_t(nm(M, "unpolished dual otherwise"), X(M.ret.fields["dual"]), M.user_y(M.Y), w, under=no, **o)


def lib_eps():
    return P(Fraction('2.22044604925031e-16'))


def count_pre(f, hi):
    k = fresh("c")
    tm.RANGES[k] = (ZERO, P(hi))
    return sum_(k, ZERO, hi, ite(f(bv(k)), ONE, ZERO))


def solves_of(I, v, key):
    if not isinstance(v, (T, Poly)):
        return set()
    x = I.expand(v)
    x = x.gen() if isinstance(x, T) else x
    return {s for s in evalt.direct_names(x) if s in I.solve_info and I.solve_info[s][0] == key}


def uses_solve(I, v, key):
    return bool(solves_of(I, v, key))


# ------------------------------------------------------------------------------------- effects

def walk(x):
    """all dictionaries of a syntax tree"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def callees(f):
    for y in walk([f.get("body"), f.get("inits")]):
        fn = y.get("fn")
        if isinstance(fn, dict):
            fn = fn.get("id")
        if isinstance(fn, (int, str)):
            yield fn
        if y.get("k") == "Lambda":
            for k in ("call", "op", "id"):
                if isinstance(y.get(k), (int, str)):
                    yield y[k]


def reachable(p, roots):
    seen, todo = {}, list(roots)
    while todo:
        f = todo.pop()
        if f is None or f["id"] in seen:
            continue
        seen[f["id"]] = f
        for c in callees(f):
            todo.append(p.funcs.get(c))
    return list(seen.values())


def const_init(g, p):
    """the initializer reads nothing but constants"""
    for y in walk(g.get("init")):
        if y.get("k") == "This":
            return False
        if y.get("k") == "Ref":
            if y.get("dk") in ("parm", "var", "binding"):
                return False
            if y.get("dk") == "global":
                g2 = p.globals.get(y.get("id"))
                if g2 is not None and not (g2.get("const") or g2.get("constexpr")):
                    return False
    return True


def settings_kept(M, ck):
    for fn, th in (("analyze", M.reused), ("solve", M.post)):
        for k, v in th.fields[M.f_prm].fields.items():
            v0 = M.pre.fields[M.f_prm].fields[k]
            if k == "scaling":
                continue
            ck.rule("%s: %s leaves the setting %s untouched" % (LABEL[M.kind], fn, k), same_value(v, v0), M.where, "changed to %r" % (v,))


def g_effects(M, ck):
    p = M.p
    if not M.scaled:
        return
    ent = [f for f in p.funcs.values() if f.get("rec") == M.t["rec"] and f.get("body")]
    ent += [f for f in p.funcs.values() if f["name"] == "solve_qp" and f.get("body") and KINDS[M.kind] in f["full"].replace("smooth::feedback::", "")]
    fs = reachable(p, ent)
    ck.analysed["functions reachable from the solver (%s)" % LABEL[M.kind]] = len(fs)
    nref = 0
    bad = []
    for f in fs:
        for y in walk([f.get("body"), f.get("inits")]):
            if y.get("dk") == "global" and y.get("id") in p.globals:
                g = p.globals[y["id"]]
                nref += 1
                if g.get("constexpr"):
                    continue
                if not g.get("const") or not const_init(g, p):
                    bad.append((f, g))
            if y.get("static") and y.get("t") is not None and not y.get("constexpr") and "name" in y and "ps" not in y:
                g = p.globals.get(y.get("id"))
                if g is not None and (not g.get("const") or not const_init(g, p)):
                    bad.append((f, g))
    ck.analysed["references to variables with static storage (%s)" % LABEL[M.kind]] = nref
    lab = "%s: no state outside the solver object is kept between calls" % LABEL[M.kind]
    if bad:
        f, g = bad[0]
        ck.violated(lab, p.loc(g), "%s uses %s, which is shared by all calls and not constant" % (f["name"], g["name"]))
    else:
        ck.holds(lab, M.where, "%d functions, %d references" % (len(fs), nref))
    # members: by value, nothing mutable behind const
    rec = p.records[M.t["rec"]]
    todo, seen, viol = [rec], set(), []
    while todo:
        r = todo.pop()
        if r["id"] in seen:
            continue
        seen.add(r["id"])
        for fd in r["fields"]:
            ty = p.types[fd["t"]]
            if fd.get("mut"):
                viol.append("%s is mutable" % fd["name"])
            if "ref" in ty or ty.get("k") == "ptr" or ty.get("qn") in ("std::reference_wrapper", "std::shared_ptr", "std::weak_ptr"):
                viol.append("%s refers to an object outside the solver" % fd["name"])
            if ty.get("rec") in p.records:
                todo.append(p.records[ty["rec"]])
    ck.rule("%s: the solver owns everything it keeps" % LABEL[M.kind], not viol, p.loc(rec), "; ".join(viol))
    for I, fn in ((M.an, "analyze"), (M.I, "solve")):
        for a, v0 in M.args0_of(fn).items():
            v1 = I.st.roots.get("arg." + a)
            ck.rule("%s: %s leaves %s untouched" % (LABEL[M.kind], fn, {"pbm": "the problem", "ws": "the guess", "prm": "the settings"}[a]),
                    v1 is v0 or repr(v1) == repr(v0), M.where, "%s is written" % a)
    settings_kept(M, ck)
    stat = [e for I in (M.an, M.I) for e in I.events if e[0] == "static-local"]


def same_value(a, b):
    if isinstance(a, Opt) and isinstance(b, Opt):
        return a.has == b.has and same_value(a.val, b.val)
    if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
        return a == b
    return repr(a) == repr(b)


def leaf_values(v, pre=""):
    if isinstance(v, Rec):
        for k, x in v.fields.items():
            yield from leaf_values(x, pre + ("." if pre else "") + k)
    else:
        yield pre, v


def g_copy(M, ck):
    """a copied or moved-to solver continues like the original"""
    if not M.scaled:
        return
    p = M.p
    todo, seen = [(M.t, "QPSolver")], set()
    while todo:
        t, lab0 = todo.pop()
        rec = p.records.get(t.get("rec"))
        if rec is None or rec["id"] in seen or "eig" in t:
            continue
        seen.add(rec["id"])
        for fd in rec["fields"]:
            todo.append((p.types[fd["t"]], fd["name"]))
        usr = [m for m in rec["methods"] if m["user"] and (m.get("copyctor") or m.get("movector") or m.get("copyasg") or m.get("moveasg"))]
        name = rec.get("name", lab0)
        if not usr:
            ck.holds("%s: %s is copied member by member" % (LABEL[M.kind], name), p.loc(rec), "no user-provided copy operation")
            continue
        for m in usr:
            f = p.funcs.get(m["id"])
            what = "%s %s" % ("move" if m.get("movector") or m.get("moveasg") else "copy", "construction" if m.get("ctor") else "assignment")
            lab = "%s: %s of %s copies the factorization or forces a new one" % (LABEL[M.kind], what, name)
            if f is None or not f.get("body"):
                ck.undecided(lab, p.loc(rec), "not instantiated")
                continue
            I = M.interp({})
            I.st.roots["other"] = src = I.symbolic(t, "other")
            if m.get("ctor"):
                got = I.construct(f, t, [], {"k": "Ctor", "a": []}, argvals=[LV("other")])
            else:
                I.st.roots["this"] = I.symbolic(t, "this")
                I.run(f, this=LV("this"), argvals=[LV("other")])
                got = I.st.roots["this"]
            w = p.loc(f)
            fl = flag_leaves(got)
            if not fl:
                ck.undecided(lab, w, "no flag")
                continue
            # either everything is taken over, or the flags are what they are in a new object
            new = dict(flag_leaves(I.default(t, "new")))
            same = all(same_leaf(x, y) for (_, x), (_, y) in zip(leaf_values(got), leaf_values(src))) and \
                repr(dec_keys(got)) == repr(dec_keys(src))
            stale = [k for k, x in fl if new.get(k) is None or x != new[k]]
            soft = [k for k, x in fl if evalt.opaque_names(x)]
            ck.rule(lab, True if same or not stale else None if soft else False, w, "%s of the copy is %s, but the factorization is not copied" % (
                ", ".join(stale), ", ".join(repr(dict(fl)[k]) for k in stale)))


def dec_keys(v, pre=""):
    """the factorizations held by a value"""
    out = []
    if isinstance(v, Rec):
        for k, x in v.fields.items():
            if k == "key" and "mat" in v.fields:
                out.append((pre, x))
            out += dec_keys(x, pre + "." + k)
    return out


def g_wrap(M, ck):
    """solve_qp() and the constructors pass problem, settings and guess on unchanged"""
    if not M.scaled:
        return
    p = M.p
    fs = [f for f in p.funcs.values() if f["name"] == "solve_qp" and f.get("body") and
          KINDS[M.kind] in f["full"].replace("smooth::feedback::", "")]
    if not fs:
        raise AnchorMissing("solve_qp for %s" % KINDS[M.kind])
    f = fs[0]
    I = M.interp(dict(M.pd))
    I.dims["ws.val.primal"] = (M.n, ONE)
    I.dims["ws.val.dual"] = (M.m, ONE)
    calls, anas = [], []
    at = {argname(p, q): "arg." + argname(p, q) for q in f["ps"]}

    def this_of(I, e, o):
        lv = I.lv(o)
        return lv.get(I) if isinstance(lv, LV) else lv

    def val(v):
        while isinstance(v, (LV, RefV)):
            v = v.get(I) if isinstance(v, LV) else v.lv.get(I)
        return v

    def solve(I, e, o, a):
        th = this_of(I, e, o)
        pb = I.lv(a[0])
        ws = val(I.ev(a[1])) if len(a) > 1 else Opt(FALSE, None)
        calls.append((th, pb, ws, I.st.pc))
        return res

    def analyze(I, e, o, a):
        anas.append((this_of(I, e, o), I.lv(a[0])))
        return None
    ft = [x["t"] for x in p.records[M.t["rec"]]["fields"] if x["name"] == M.f_sol][0]
    I.dims["result.primal"] = (M.n, ONE)
    I.dims["result.dual"] = (M.m, ONE)
    res = I.symbolic(p.types[ft], "result")
    Q = "smooth::feedback::QPSolver::"
    I.models[Q + "solve"] = solve
    I.models[Q + "analyze"] = analyze
    ret = val(I.run(f, argvals=M.args(I, f)))
    w = p.loc(f)
    L = LABEL[M.kind]
    if not calls:
        return ck.undecided("%s: solve_qp: solves once" % L, w, "no call of QPSolver::solve")
    for nc, (th, pb, ws, pc) in enumerate(calls):
        cl = "" if len(calls) == 1 else " (call %d)" % (nc + 1)
        for nc2 in range(nc):
            ck.same("%s: solve_qp: solves once%s" % (L, cl), and_(pc, calls[nc2][3]), FALSE, w)
        pr0 = I.st.roots[at["prm"]]
        pr1 = th.fields.get(M.f_prm) if isinstance(th, Rec) else None
        if not isinstance(pr1, Rec):
            ck.undecided("%s: solve_qp: solver settings%s" % (L, cl), w, repr(pr1))
        else:
            for k, v0 in pr0.fields.items():
                v1 = pr1.fields.get(k)
                ok = same_value(v1, v0)
                if not ok and (v1 is None or not pc.is_true() or set(evalt.opaque_names(v1) if isinstance(v1, (Poly, Bool)) else ())):
                    ok = None
                ck.rule("%s: solve_qp: the setting %s is the caller's%s" % (L, k, cl), ok, w, "the solver runs with %r" % (v1,))
        pv = val(pb)
        mine = lambda x: x is I.st.roots[at["pbm"]] or repr(x) == repr(I.st.roots[at["pbm"]])
        ck.rule("%s: solve_qp: the problem is the caller's%s" % (L, cl), mine(pv), w, "another problem is solved")
        ck.rule("%s: solve_qp: working memory is prepared for the problem%s" % (L, cl),
                any(mine(val(b)) for _, b in anas), w, "analyze() is not called for the problem")
        w0 = I.st.roots[at["ws"]]
        lab = "%s: solve_qp: the guess is the caller's%s" % (L, cl)
        h1, h0 = (as_bool(x.has) if isinstance(x, Opt) else None for x in (ws, w0))
        if h1 is None or h0 is None:
            ck.undecided(lab, w, "%r" % (ws,))
            continue
        ck.same(lab + ", when there is one", and_(pc, h1), and_(pc, h0), w)
        if not h1.is_false():
            ck.rule(lab, repr(val(ws.val)) == repr(val(w0.val)), w, "another guess is used: %r" % (ws.val,))
    if not and_(*[not_(c[3]) for c in calls]).is_false():
        ck.same("%s: solve_qp: solves always" % L, or_(*[c[3] for c in calls]), TRUE, w)
    for k in ("primal", "dual", "objective", "code", "iter"):
        v = ret.fields.get(k) if isinstance(ret, Rec) else None
        ok = None if v is None else same_leaf(v, res.fields[k])
        ck.rule("%s: solve_qp: returned %s is the solver's" % (L, k), ok, w, "%r" % (v,))


def g_ctor(M, ck):
    """a constructed solver has the settings it was given"""
    if not M.scaled:
        return
    p = M.p
    n = 0
    for f in p.funcs.values():
        if f.get("rec") != M.t["rec"] or not f.get("ctor", f["name"] == M.p.records[M.t["rec"]]["name"].split("<")[0]) or not f.get("body"):
            continue
        if "prm" not in [argname(p, q) for q in f["ps"] if "QPSolverParams" in p.types[q["t"]].get("s", "")]:
            continue
        I = M.interp(dict(M.pd))
        I.models["smooth::feedback::QPSolver::analyze"] = lambda I, e, o, a: None
        av = M.args(I, f)
        pr0 = I.st.roots["arg.prm"]
        got = I.construct(f, M.t, [], {"k": "Ctor", "a": []}, argvals=av)
        n += 1
        pr1 = got.fields.get(M.f_prm) if isinstance(got, Rec) else None
        for k, v0 in pr0.fields.items():
            v1 = pr1.fields.get(k) if isinstance(pr1, Rec) else None
            ok = same_value(v1, v0)
            if not ok and (v1 is None or set(evalt.opaque_names(v1) if isinstance(v1, (Poly, Bool)) else ())):
                ok = None
            ck.rule("%s: constructor with %d arguments: the setting %s is the caller's" % (LABEL[M.kind], len(f["ps"]), k), ok, p.loc(f), "the solver has %r" % (v1,))
    if not n:
        raise AnchorMissing("constructors of QPSolver")


def as_bool(h):
    return h if isinstance(h, Bool) else None


def same_leaf(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return a.rows == b.rows and a.cols == b.cols and a.gen() == b.gen()
    return same_value(a, b)
