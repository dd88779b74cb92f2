"""Models of the functions of the smooth library that the sources call.

Nothing is known about a Lie group but its dimension: an element is an uninterpreted scalar, and the
operations on it are uninterpreted functions.  On R^n (Eigen vectors, scalars) they are what they are.
"""
from .values import *
from . import terms as tm
from .interp import LV, LVTemp, Seq, Opt, RefV


def V(I, x):
    if isinstance(x, dict):
        x = I.ev(x)
    n = 0
    while isinstance(x, (LV, RefV)) and n < 6:
        x = x.lv if isinstance(x, RefV) else x.get(I)
        n += 1
    return x


def is_rn(v):
    return isinstance(v, (T, Undef))


def flat_ty(I, e):
    return I.prog.ty(e)


def dims(I, e):
    ty = I.prog.ty(e)
    r, c = ty.get("rows", -1), ty.get("cols", -1)
    return r, c


def scalar_group(I, v):
    """an element of R (a floating point number), not of an unknown group"""
    return False


def result(I, e, name, args):
    ty = I.prog.ty(e)
    fl = []
    for a in args:
        fl += I.flat(a)
    return I.typed_fn(name, ty, fl)


def is_group(ty):
    return ty.get("qn") in EXT


EXT = {"vf::Grp": 3}


def grp(I, e):
    return is_group(I.prog.ty(e))


def unary(name):
    def h(I, e, o, a):
        return result(I, e, name, [V(I, x) for x in ([o] if o is not None else []) + list(a)])
    return h


def user(name):
    """unknown user function; the object it is called on is dropped"""
    def h(I, e, o, a):
        a = list(a)
        if o is None and e.get("op") == "()":
            a = a[1:]
        xs = [V(I, x) for x in a]
        xs = [I.tens(x) if isinstance(x, Undef) else x for x in xs]
        return result(I, e, name, xs)
    return h


def rplus(I, e, o, a):
    xs = [V(I, x) for x in ([o] if o is not None else []) + list(a)]
    if grp(I, e):
        return fn("rplus", I.scalar(xs[0]), lam(I.tens(xs[1])))
    if isinstance(xs[0], (T, Undef)):
        return tadd(I.tens(xs[0]), I.tens(xs[1]))
    return I.scalar(xs[0]) + I.scalar(xs[1])


def rplus_assign(I, e, o, a):
    xs = ([o] if o is not None else []) + list(a)
    lv = I.lv(xs[0])
    lv.set(I, fn("rplus", I.scalar(V(I, lv)), lam(I.tens(V(I, xs[1])))))
    return lv


def rminus(I, e, o, a):
    xs = [V(I, x) for x in ([o] if o is not None else []) + list(a)]
    if is_group(I.prog.ty(o if o is not None else a[0])):
        return result(I, e, "rminus", xs)
    if isinstance(xs[0], (T, Undef)):
        return tsub(I.tens(xs[0]), I.tens(xs[1]))
    d = I.scalar(xs[0]) - I.scalar(xs[1])
    return tconst(1, 1, d)


def identity(I, e, o, a):
    ty = I.prog.ty(e)
    if is_group(ty):
        return fn("Identity")
    if "eig" in ty:
        n = P(ty["rows"]) if ty.get("rows", -1) >= 0 else (I.scalar(V(I, a[0])) if a else fn("?dof"))
        return tconst(n, 1, 0)
    return ZERO


def cast(I, e, o, a):
    return V(I, a[0] if a else o)


def dof(I, e, o, a):
    ty = I.prog.ty(a[0])
    if is_group(ty):
        return P(EXT[ty["qn"]])
    v = V(I, a[0])
    return v.rows if isinstance(v, T) else P(ty.get("rows", 1)) if ty.get("rows", 1) >= 0 else I.tens(v).rows


def onvec(name, val):
    """function of a tangent (or group element) with matrix values: `val` gives its value on R^n"""
    def h(I, e, o, a):
        ta = [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, dict) and "t" in x]
        gt = I.prog.types[ta[0]["t"]] if ta else {}
        xs = [V(I, x) for x in a]
        if is_group(gt):
            return result(I, e, name, xs)
        r, c = dims(I, e)
        return val(I, e, xs, r, c)
    return h


def vzero(I, e, xs, r, c):
    return tconst(r, c, 0)


def vident(I, e, xs, r, c):
    return tident(r, c)


def vsame(I, e, xs, r, c):
    return xs[0]


MODELS = {
    "smooth::rplus": rplus, "smooth::rminus": rminus,
    "vf::Grp::operator-": rminus, "vf::Grp::operator+=": rplus_assign, "vf::Grp::operator+": rplus,
    "smooth::Identity": identity, "smooth::Default": identity,
    "smooth::cast": cast, "vf::Grp::cast": cast, "smooth::dof": dof,
    "smooth::log": onvec("log", vsame), "smooth::exp": onvec("exp", vsame),
    "smooth::Ad": onvec("Ad", vident), "smooth::ad": onvec("ad", vzero),
    "smooth::dr_exp": onvec("dr_exp", vident), "smooth::dr_expinv": onvec("dr_expinv", vident),
    "smooth::dl_exp": onvec("dl_exp", vident), "smooth::dl_expinv": onvec("dl_expinv", vident),
    "smooth::d2r_exp": onvec("d2r_exp", vzero), "smooth::d2r_expinv": onvec("d2r_expinv", vzero),
    "smooth::composition": unary("compose"), "vf::Grp::operator*": unary("compose"),
    "smooth::inverse": unary("inverse"), "vf::Grp::inverse": unary("inverse"),
    "vf::Grp::log": unary("log"),
    "ctor:vf::Grp": lambda I, e, a: fn("dflt") if not a else V(I, a[0]),
}


# ------------------------------------------------------------------ derivatives
def wrt(I, e, o, a):
    out = []
    for x in a:
        lv = I.lv(x)
        out.append(RefV(lv) if not isinstance(lv, LVTemp) else lv.val)
    return Seq(out, "tuple")


def jac_members(I, fv, rec):
    """member functions jacobian() / hessian() of the class of a function object"""
    out = {}
    if rec is None:
        return out
    for f in I.prog.funcs.values():
        if f.get("rec") == rec and f["name"] in ("jacobian", "hessian"):
            out[f["name"]] = f
    return out


def nphi(I):
    I._ph = getattr(I, "_ph", 0)
    return I._ph


def placeholder(I, v, k):
    nm = "ph%d.%d" % (I._ph, k)
    if isinstance(v, T):
        return T.base(nm, v.rows, v.cols)
    return sym(nm)


def dr(I, e, o, a):
    """value of f and its first derivatives.  The derivative is an uninterpreted function of f (as a function
    of the argument differentiated by) and of the point."""
    fe, w = a[0], V(I, a[1])
    rty = I.prog.ty(e)
    K = len(rty.get("ta") or []) - 1
    flv = I.lv(fe)
    fv = V(I, flv)
    args = []
    for x in w.items:
        x = x.lv if isinstance(x, RefV) else LVTemp(x)
        args.append(x)
    vals = [V(I, x) for x in args]
    vals = [I.tens(v) if isinstance(v, Undef) else v for v in vals]
    jm = None
    fty = I.prog.ty(fe)
    if fty.get("rec") is not None:
        jm = {f["name"]: f for f in I.prog.funcs.values() if f.get("rec") == fty["rec"] and f["name"] in ("jacobian", "hessian")
              and not f.get("static")}
    dt = [x for x in (e.get("fn") or {}).get("targs") or [] if isinstance(x, int)]
    analytic = len(dt) < 2 or dt[1] in (3, 4)
    I.dr_types = getattr(I, "dr_types", set()) | {dt[1] if len(dt) > 1 else 4}
    rt0 = I.prog.types[rty["ta"][0]["t"]]

    def run(f, av, ret):
        n0 = len(I.events)
        I._ph = nphi(I) + 1
        try:
            if isinstance(f, dict):
                r = I.call(f, [], this=flv, argvals=av)
            else:
                r = I.invoke(fv, av, e, retty=ret)
        finally:
            I._ph -= 1
            del I.events[n0:]
        return V(I, r)
    I._ph = nphi(I) + 1
    try:
        val = I.invoke(fv, args, e, retty=rt0)
        val = V(I, val)
        out = [I.convert(val, rt0)]
        for k in range(1, K + 1):
            mem = jm.get("jacobian" if k == 1 else "hessian") if jm and analytic else None
            ty = I.prog.types[rty["ta"][k]["t"]]
            if mem is not None:
                out.append(run(mem, args, ty))
            else:
                out.append(deriv(I, k, val, vals, lambda i, ph: run(None, [x if n != i else LVTemp(ph) for n, x in enumerate(args)], rt0), ty, rt0))
    finally:
        I._ph -= 1
    I.calls.add("diff::dr")
    return Seq(out, "tuple")


def deriv(I, k, val, vals, at, ty, rt0):
    offs, o = [], ZERO
    reps = []
    for n, v in enumerate(vals):
        ph = placeholder(I, v, n)
        r = at(n, ph)
        reps.append(r)
        offs.append(o)
        o = o + (v.rows if isinstance(v, T) else P(EXT["vf::Grp"]) if group_sym(I, v, n) else ONE)
    nx = o
    ny = val.rows if isinstance(val, T) else P(ty["rows"]) if ty.get("rows", -1) > 0 and k == 1 else ONE

    def comp(r, i):
        if isinstance(r, T):
            return (r.at(i, ZERO),)
        return (I.scalar(r),) if ny == ONE else (I.scalar(r), i)

    if k == 1:
        def f(i, j):
            res = None
            for n in range(len(vals) - 1, -1, -1):
                x = fn("D", *(comp(reps[n], i) + (j - offs[n],) + tuple(I.flat(vals[n]))))
                res = x if res is None else ite(ge(j - offs[n + 1], 0), res, x)
            return res
        return T(ny, nx, f)
    al = []
    for v in vals:
        al += I.flat(v)
    fl = I.flat(val)
    return tfn("D2", nx, ny * nx, fl + al)


def group_sym(I, v, n):
    return n in getattr(I, "_gargs", ())


def dr_h(I, e, o, a):
    # which arguments are group elements
    te = a[1]
    while te.get("k") in ("Cast", "Paren", "Ctor") and (te.get("e") or te.get("a")):
        te = te["e"] if te.get("e") else te["a"][0]
    old = getattr(I, "_gargs", ())
    I._gargs = [n for n, x in enumerate(te.get("a") or []) if is_group(I.prog.ty(x))]
    try:
        return dr(I, e, o, a)
    finally:
        I._gargs = old


# ------------------------------------------------------------------ ODE steppers
def do_step(I, e, o, a):
    """explicit Euler: x <- x + dt f(x, t)"""
    ty = I.prog.ty(o) if o is not None else {}
    if "euler" not in ty.get("s", ""):
        return NotImplemented
    sysv = V(I, a[0])
    x = I.lv(a[1])
    while isinstance(x.get(I), RefV):
        x = x.get(I).lv
    xty = I.prog.ty(a[1])
    t, dt = I.scalar(V(I, a[2])), I.scalar(V(I, a[3]))
    root = I.uid("dxdt")
    x0 = V(I, x)
    if isinstance(x0, Undef):
        x0 = I.tens(x0)
    n = P(EXT[xty["qn"]]) if is_group(xty) else x0.rows
    I.st.roots[root] = T.base("undef:dxdt", n, ONE if is_group(xty) else x0.cols)
    rt = I.uid("tarr")
    I.st.roots[rt] = t
    I.invoke(sysv, [x, LV(root), LV(rt)], e)
    d = I.tens(I.st.roots[root])
    dx = tscale(dt, d)
    x.set(I, fn("rplus", I.scalar(x0), lam(dx)) if is_group(xty) else tadd(x0, dx))
    I.events.append(("step", repr(x), t, dt, I.st.pc, I.prog.loc(e)))
    return Opq("void")


MODELS.update({"smooth::wrt": wrt, "smooth::diff::dr": dr_h})
for _q in ("explicit_stepper_base", "euler"):
    MODELS["boost::numeric::odeint::%s::do_step" % _q] = do_step
