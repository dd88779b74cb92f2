"""Obligations on the operations on times (property T01)"""
from sa.framework import *
from sa.interp import Program, Interp, LV
from sa.lib import period_of, is_int_rep

NS = P(Fraction(1, 10 ** 9))
# ROS times: a count of nanoseconds; from_seconds truncates to nanoseconds
ROS = {
    "rclcpp::Duration::from_seconds": lambda I, e, o, a: fn("toint", I.scalar(I.ev(a[0])) / NS) * NS,
    "rclcpp::Duration::from_nanoseconds": lambda I, e, o, a: I.scalar(I.ev(a[0])) * NS,
    "rclcpp::Duration::to_chrono": lambda I, e, o, a: I.scalar(val(I, I.ev(o))),
    "rclcpp::Duration::seconds": lambda I, e, o, a: I.scalar(val(I, I.ev(o))),
    "rclcpp::Duration::nanoseconds": lambda I, e, o, a: I.scalar(val(I, I.ev(o))) / NS,
    "rclcpp::Time::seconds": lambda I, e, o, a: I.scalar(val(I, I.ev(o))),
    "rclcpp::Time::nanoseconds": lambda I, e, o, a: I.scalar(val(I, I.ev(o))) / NS,
    "ctor:rclcpp::Duration": lambda I, e, a: ros_ctor(I, a),
    "ctor:rclcpp::Time": lambda I, e, a: ros_ctor(I, a),
}


def val(I, o):
    while isinstance(o, LV):
        o = o.get(I)
    return o


def ros_ctor(I, a):
    v = [I.ev(x) for x in a]
    v = [x.get(I) if isinstance(x, LV) else x for x in v]
    if len(v) == 2:
        return I.scalar(v[0]) + I.scalar(v[1]) * NS
    if not v:
        return ZERO
    ty = I.prog.ty(a[0])
    if ty.get("k") in ("int", "uint"):
        return I.scalar(v[0]) * NS
    return v[0]


def op(sign):
    def h(I, e, o, a):
        xs = [I.scalar(val(I, I.ev(o)))] if o is not None else []
        xs += [I.scalar(val(I, I.ev(x))) for x in a]
        return xs[0] + sign * xs[1]
    return h


for c in ("rclcpp::Time::", "rclcpp::Duration::", "rclcpp::"):
    ROS[c + "operator+"] = op(1)
    ROS[c + "operator-"] = op(-1)


def kind(p, ty):
    """(name, unit or None for continuous times)"""
    s = ty.get("s", "?")
    if ty.get("k") == "float":
        return s, None
    if s.endswith("rclcpp::Time"):
        return "ROS time", NS
    class X:
        pass
    I = Interp(p)
    n, d = period_of(I, ty)
    u = P(Fraction(n, d))
    what = "time point" if ty.get("qn", "").endswith("time_point") else "duration"
    return "%s in units of %s s%s" % (what, Fraction(n, d), "" if is_int_rep(I, ty) else " (floating)"), u if is_int_rep(I, ty) else None


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def rep(p, ty):
    """width in bits of the number a time is made of, and whether it is floating"""
    if ty.get("k") in ("int", "uint"):
        return ty.get("bits", 64), False
    if ty.get("k") == "float":
        return {"float": 32, "double": 64}.get(ty.get("s", "").replace("const ", ""), 128), True
    if ty.get("qn") in ("std::chrono::duration", "std::chrono::time_point"):
        for a in ty.get("ta") or []:
            if "t" in a:
                r = rep(p, p.types[a["t"]])
                if r:
                    return r
    return None


def literal(e):
    while e.get("k") in ("Cast", "Paren") and e.get("e"):
        e = e["e"]
    return e.get("k") in ("Int", "Float", "Lit", "Const") or "v" in e and "e" not in e


def narrow(p, f, ty):
    """constructs that pass the time through a type with fewer bits than the time itself"""
    own = rep(p, ty)
    lim = min(own[0], 64) if own else 64
    out, seen, todo = [], set(), [f]
    while todo:
        g = todo.pop()
        if g["id"] in seen or not g.get("body"):
            continue
        seen.add(g["id"])
        for n in walk(g["body"]):
            c = n.get("fn")
            if isinstance(c, dict) and c.get("id") in p.funcs:
                todo.append(p.funcs[c["id"]])
            if not isinstance(n.get("t"), int) or "k" not in n:
                continue
            x = p.types[n["t"]]
            if x.get("qn") in ("std::chrono::duration", "std::chrono::time_point"):
                r = rep(p, x)
                if r and r[0] < lim:
                    out.append((p.loc(n), x.get("s")))
            elif n["k"] == "Cast" and n.get("e"):
                r, q = rep(p, x), rep(p, p.ty(n["e"]))
                if r and q and r[0] < lim and n.get("ck") in ("FloatingCast", "FloatingToIntegral", "IntegralCast") and not literal(n["e"]):
                    if r[0] < q[0] or r[1] != q[1]:
                        out.append((p.loc(n), x.get("s")))
    return out


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = Program(extract("time", incs=("stub",)))
    fs = [f for f in p.funcs.values() if f["name"] in ("plus", "minus") and f.get("body") and len(f["ps"]) == 2 and "time_trait" not in f.get("qn", f["full"])]
    if not fs:
        raise AnchorMissing("the uses of time_trait in tu/time.cpp")
    for f in fs:
        ty = p.types[f["ps"][0]["t"]]
        nm, unit = kind(p, ty)
        I = Interp(p, models=ROS)
        I.strict = True
        I.dims = {}
        w = p.loc(f)
        traits_ = [g for g in p.funcs.values() if g["name"] == f["name"] and "time_trait" in g["full"] and g["ps"] and g["ps"][0]["t"] == f["ps"][0]["t"] and g.get("body")]
        if traits_:
            w = p.loc(traits_[0])

        def time_(s):
            return unit * sym(s, True) if unit is not None else sym(s)
        a, b = time_("t1"), time_("t2")
        tick = unit if unit is not None else ONE
        d = sym("d")
        if f["name"] == "plus":
            I.st.roots["a"], I.st.roots["b"] = a, d
        else:
            I.st.roots["a"], I.st.roots["b"] = b, a
        r = I.run(f, argvals=[LV("a"), LV("b")])
        lab = "%s: " % nm
        if I.unsupported or not isinstance(r, Poly):
            ck.undecided(lab + f["name"], w, "%r %s" % (r, I.unsupported[:2]))
            continue
        if f["name"] == "minus":
            ck.same(lab + "the difference of two times in seconds", r / tick, (b - a) / tick, w)
        elif unit is None:
            ck.same(lab + "adding seconds", r, a + d, w)
        else:
            whole = unit * sym("k", True)
            ck.same(lab + "adding a whole number of ticks is exact", subst(r, {("sym", "d"): whole}) / tick, (a + whole) / tick, w)
            q = d / unit
            forms = [a + unit * fn("toint", q), a + d, a + unit * fn("floor", q), a + unit * fn("round", q), unit * fn("toint", a / unit + q)]
            if r in forms:
                ck.holds(lab + "adding seconds is exact up to one tick", w, "normal form")
            else:
                e = r - a - d
                e = e / tick
                ck.same(lab + "adding seconds is exact up to one tick", and_(ge(1 - e, 0), ge(1 + e, 0)), TRUE, w,
                        fixed={"d": lambda g: g.choice([0.001, 0.4, 1.7, -2.3, 12.6, 1234.56, -0.75])})
        bad = narrow(p, f, ty)
        ck.rule(lab + f["name"] + ": no detour through a less precise type", not bad, bad[0][0] if bad else w,
                "a time passes through %s" % (bad[0][1] if bad else ""))
    ck.analysed["instantiated operations"] = len(fs)
    return ck
