"""Obligations on the PID controller (property P01)"""
from sa.framework import *
from sa.interp import Program, Interp, LV, LVTemp
from sa import smooth


def spline(I, e, o, a):
    """value of the spline at t; velocity and acceleration are written to the optional outputs"""
    o, *a = ([o] if o is not None else []) + list(a)
    c = smooth.V(I, o)
    args = I.flat(c) + I.flat(smooth.V(I, a[0]))
    for k, x in enumerate(a[1:3]):
        while isinstance(x, dict) and x.get("k") in ("Cast", "Paren", "Ctor") and (x.get("e") or x.get("a")):
            x = x["e"] if x.get("e") else x["a"][0]
        if isinstance(x, dict) and x.get("k") in ("Ref", "Mem"):
            lv = I.lv(x)
            d = smooth.EXT["vf::Grp"]
            lv.set(I, tfn("spline.%s" % ("vel", "acc")[k], d, 1, args))
    return fn("spline", *args)


def start(p):
    I = Interp(p, models=dict(smooth.MODELS, **{"smooth::Spline::operator()": spline}))
    I.ext = {"vf::Grp", "smooth::Spline"}
    I.strict = True
    I.dims = {}
    return I


def classes(p):
    out = []
    for t in p.types:
        if t.get("k") == "rec" and t.get("qn", "").endswith("feedback::PID") and "ref" not in t and t.get("rec") in p.records:
            if not any(t["rec"] == x["rec"] for x in out):
                out.append(t)
    if len(out) < 3:
        raise AnchorMissing("class PID")
    return out


def methods(p, t, name):
    fs = [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == name and f.get("body")]
    if not fs:
        raise AnchorMissing("PID::" + name)
    return fs


def label(t):
    s = t["s"]
    g = "Lie group" if "Grp" in s else "vectors"
    return "%s, %s: " % (g, "durations" if "duration<double" in s.split(",")[0] else "time points" if "time_point" in s else "numbers")


def fields(p, t):
    return [f["name"] for f in p.records[t["rec"]]["fields"]]


ROLES = {"prm_": None, "kp_": "set_kp", "kd_": "set_kd", "ki_": "set_ki", "i_err_": "reset_integral", "t_last": None, "x_des_": "set_xdes"}


def roles(p, t):
    """names of the members: the known ones, or else by which setter writes them"""
    names = fields(p, t)
    if set(ROLES) <= set(names):
        return {k: k for k in ROLES}
    out = {}
    for k, m in ROLES.items():
        if not m:
            continue
        f = [f for f in methods(p, t, m) if len(f["ps"]) < 2][0]
        I = start(p)
        o = I.symbolic(t, "pid")
        I.st.roots["o"] = o
        I.st.roots["g"] = UserFn("traj") if k == "x_des_" else sym("g") if p.types[f["ps"][0]["t"]].get("k") == "float" else T.base("g", 3, 1) if f["ps"] else None
        I.run(f, this=LV("o"), argvals=[LV("g")] if f["ps"] else [])
        ch = [n for n in names if not val_equal(o.fields[n], I.st.roots["o"].fields.get(n))]
        if len(ch) != 1:
            raise AnchorMissing("the member written by PID::%s" % m)
        out[k] = ch[0]
    rest = [n for n in names if n not in out.values()]
    for n in rest:
        ty = p.types[p.records[t["rec"]]["fields"][names.index(n)]["t"]]
        if ty.get("qn") == "std::optional":
            out["t_last"] = n
        elif ty.get("qn", "").endswith("PIDParams"):
            out["prm_"] = n
    if set(out) != set(ROLES) or len(rest) != 2:
        raise AnchorMissing("members of PID: %s" % names)
    return out


def frame(ck, lab, before, after, but, w):
    """members that are not to change"""
    for k, v in before.fields.items():
        if k in but:
            continue
        u = after.fields.get(k)
        nm = lab + "leaves %s alone" % k
        if val_equal(u, v):
            ck.holds(nm, w, "normal form")
        elif isinstance(v, T) and isinstance(u, T):
            ck.same_t(nm, u, v, w)
        elif isinstance(v, Opt) and isinstance(u, Opt):
            ck.same(nm, and_(u.has, v.has), v.has, w)
        elif isinstance(v, (UserFn, Closure)):
            ck.violated(nm, w, "the member is assigned")
        elif isinstance(v, Rec) and isinstance(u, Rec):
            for x in v.fields:
                ck.same(nm, u.fields[x], v.fields[x], w)
        else:
            ck.undecided(nm, w, "%r" % (u,))


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    p = Program(extract("pid", incs=("stub",)))
    n = 0
    for t in classes(p):
        lab = label(t)
        grp = "Grp" in t["s"]
        d = 3 if grp else 2
        names = fields(p, t)

        def obj(I):
            o = I.symbolic(t, "pid")
            I.st.roots["o"] = o
            return o

        def tval(s):
            return P(Fraction(1, 10 ** 9)) * sym(s, True) if "time_point" in t["s"] else sym(s)
        m = roles(p, t)
        # ------------------------------------------------ initial state
        I = start(p)
        ctor = [f for f in p.funcs.values() if f.get("rec") == t["rec"] and f["name"] == "PID" and f.get("body") and len(f["ps"]) == 1
                and p.types[f["ps"][0]["t"]].get("qn", "").endswith("PIDParams")]
        if not ctor:
            raise AnchorMissing("the constructor of PID")
        w = p.loc(ctor[0])
        prm = I.symbolic(p.types[ctor[0]["ps"][0]["t"]], "prm")
        I.st.roots["prm"] = prm
        b = I.construct(ctor[0], t, [], {"k": "Ctor", "t": p.types.index(t), "a": []}, argvals=[LV("prm")])
        n += 1
        if isinstance(b, LV):
            b = b.get(I)
        for k, v in (("kp_", 1), ("kd_", 1), ("ki_", 0), ("i_err_", 0)):
            ck.same_t(lab + "initial %s" % k, b.fields.get(m[k]), tconst(d, 1, v), w)
        ck.same(lab + "no previous time at first", b.fields[m["t_last"]].has, FALSE, w)
        ck.same(lab + "the windup limit is the given one", b.fields[m["prm_"]].fields["windup_limit"], prm.fields["windup_limit"], w)
        ck.same(lab + "the windup limit is infinite by default", start(p).default(p.types[p.records[t["rec"]]["fields"][names.index(m["prm_"])]["t"]], "d").fields["windup_limit"], INF, w)
        rt = None
        for f in p.funcs.values():
            if f["name"] == "operator()" and f.get("rec") == t["rec"]:
                rt = f
        tt = p.types[p.records[t["rec"]]["fields"][names.index(m["x_des_"])]["t"]]
        I.st.roots["t"] = tval("t")
        r = I.invoke(b.fields[m["x_des_"]], [LV("t")])
        if isinstance(r, Seq) and len(r.items) == 3:
            if grp:
                ck.same(lab + "the initial target is the identity", r.items[0], fn("Identity"), w)
            else:
                ck.same_t(lab + "the initial target is the identity", r.items[0], tconst(d, 1, 0), w)
            ck.same_t(lab + "the initial target velocity is zero", r.items[1], tconst(d, 1, 0), w)
            ck.same_t(lab + "the initial target acceleration is zero", r.items[2], tconst(d, 1, 0), w)
        else:
            ck.undecided(lab + "the initial target", w, repr(r))
        # ------------------------------------------------ control law
        I = start(p)
        o = obj(I)
        f = methods(p, t, "operator()")[0]
        w = p.loc(f)
        now = tval("t")
        last = tval("last")
        hb = o.fields[m["t_last"]].has
        I.st.roots["o"] = o = o.set(m["t_last"], Opt(hb, last))
        I.st.roots["t"] = now
        x = sym("x") if grp else T.base("x", d, 1)
        I.st.roots["x"] = x
        I.st.roots["v"] = v = T.base("v", d, 1)
        r = I.run(f, this=LV("o"), argvals=[LV("t"), LV("x"), LV("v")])
        n += 1
        a = I.st.roots["o"]
        des = I2 = None
        J = start(p)
        pt = p.types[[q for q in p.records[t["rec"]]["fields"] if q["name"] == m["x_des_"]][0]["t"]]
        calls = [e for e in I.events if e[0] == "ucall"]
        ck.rule(lab + "the target is the one at the given time", calls and all(c[2] == (now,) for c in calls), w,
                "the desired trajectory is evaluated at %s" % [show(z) for c in calls for z in c[2]])
        nm = "pid." + m["x_des_"]
        g = fn(nm + ".0", now) if grp else tfn(nm + ".0", d, 1, (now,))
        vd, ad = tfn(nm + ".1", d, 1, (now,)), tfn(nm + ".2", d, 1, (now,))
        err = tfn("rminus", 3, 1, (g, x)) if grp else tsub(g, x)
        W = o.fields[m["prm_"]].fields["windup_limit"]
        upd = and_(hb, gt(now - last, 0))
        i0 = o.fields[m["i_err_"]]
        i1 = T(d, 1, lambda i, j: ite(upd, minof([maxof([i0.at(i) + (now - last) * err.at(i), -W]), W]), i0.at(i)))
        kp, kd, ki = (o.fields[m[k]] for k in ("kp_", "kd_", "ki_"))
        u = T(d, 1, lambda i, j: ad.at(i) + kp.at(i) * err.at(i) + kd.at(i) * (vd.at(i) - v.at(i)) + ki.at(i) * i1.at(i))
        pre = ge(W, 0)
        ck.same_t(lab + "the integral state accumulates the error and stays within the windup limit", a.fields[m["i_err_"]], i1, w, under=pre)
        ck.same_t(lab + "the control law", r if not isinstance(r, LV) else r.get(I), u, w, under=pre)
        tl = a.fields[m["t_last"]]
        ck.same(lab + "the time is remembered", and_(tl.has, eq(tl.val, now)) if isinstance(tl, Opt) else tl, TRUE, w)
        frame(ck, lab + "the control law ", o, a, (m["i_err_"], m["t_last"]), w)
        if I.unsupported:
            ck.undecided(lab + "constructs of the control law", w, str(I.unsupported[:3]))
        # ------------------------------------------------ setters
        for name, k in (("set_kp", "kp_"), ("set_kd", "kd_"), ("set_ki", "ki_"), ("reset_integral", "i_err_")):
            for f in methods(p, t, name):
                I = start(p)
                o = obj(I)
                w = p.loc(f)
                vec = bool(f["ps"]) and p.types[f["ps"][0]["t"]].get("k") == "rec"
                av = []
                want = tconst(d, 1, 0)
                if f["ps"]:
                    want = T.base("g", d, 1) if vec else tconst(d, 1, sym("g"))
                    I.st.roots["g"] = want if vec else sym("g")
                    av = [LV("g")]
                I.run(f, this=LV("o"), argvals=av)
                n += 1
                l2 = lab + "%s%s " % (name, " (vector)" if vec else "")
                ck.same_t(l2 + "sets " + k, I.st.roots["o"].fields[m[k]], want, w)
                frame(ck, l2, o, I.st.roots["o"], (m[k],), w)
        # ------------------------------------------------ trajectories
        for f in methods(p, t, "set_xdes"):
            I = start(p)
            o = obj(I)
            w = p.loc(f)
            sp = len(f["ps"]) == 2
            rv = "&&" in p.types[f["ps"][-1]["t"]].get("s", "")
            l2 = lab + "set_xdes(%s%s) " % ("t0, spline" if sp else "function", ", rvalue" if rv else "")
            if sp:
                I.st.roots["t0"], I.st.roots["c"] = tval("t0"), sym("c")
                I.run(f, this=LV("o"), argvals=[LV("t0"), LV("c")])
            else:
                I.st.roots["c"] = UserFn("traj")
                I.run(f, this=LV("o"), argvals=[LV("c")])
            n += 1
            a = I.st.roots["o"]
            frame(ck, l2, o, a, (m["x_des_"],), w)
            if not sp:
                ok = isinstance(a.fields[m["x_des_"]], UserFn) and a.fields[m["x_des_"]].name == "traj"
                if ok or isinstance(a.fields[m["x_des_"]], UserFn):
                    ck.rule(l2 + "becomes the target", ok, w, "the desired trajectory is %r" % (a.fields[m["x_des_"]],))
                else:
                    ck.undecided(l2 + "becomes the target", w, repr(a.fields[m["x_des_"]]))
                continue
            # the caller's objects may change or go away afterwards
            I.st.roots["t0"], I.st.roots["c"] = tval("t0later"), sym("clater")
            I.st.roots["t"] = tval("t")
            r = I.invoke(a.fields[m["x_des_"]], [LV("t")])
            if isinstance(r, Seq) and len(r.items) == 3:
                at = (sym("c"), tval("t") - tval("t0"))
                ck.same(l2 + "position", r.items[0], fn("spline", *at), w)
                ck.same_t(l2 + "velocity", r.items[1], tfn("spline.vel", d, 1, at), w)
                ck.same_t(l2 + "acceleration", r.items[2], tfn("spline.acc", d, 1, at), w)
            else:
                ck.undecided(l2 + "becomes the target", w, repr(r))
    ck.analysed["functions interpreted"] = n
    return ck
