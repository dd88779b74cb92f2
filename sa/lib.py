"""Models of the library calls (Eigen, std) that occur in the analysed code."""
from fractions import Fraction
from .values import *
from . import values as va
from . import terms as tm
from .interp import first_pos, LV, LVTemp, LVView, LVElem, StrKey, PtrArr, ZipV, CountV, DECOMP


def V(I, a):
    v = a.get(I) if isinstance(a, LV) else a
    n = 0
    while isinstance(v, RefV) and n < 4:
        v = v.lv.get(I)
        n += 1
    return v


def Vlv(I, a):
    """location behind references"""
    if not isinstance(a, LV):
        a = LVTemp(a)
    n = 0
    while n < 4:
        if isinstance(a, (LVView, LVElem)):
            return a
        v = a.get(I)
        if isinstance(v, RefV):
            a = v.lv
            n += 1
        else:
            break
    return a


def S(I, a):
    return I.scalar(V(I, a))


def TT(I, a):
    return I.tens(V(I, a))


def is_block(I, e):
    t = I.prog.ty(e.get("o", {"t": -1}))
    while t.get("k") in ("ref", "ptr"):
        t = I.prog.types[t["to"]]
    return t.get("name") == "Block"


class LVCoeffs(LV):
    """array of the stored values of a sparse matrix"""
    def __init__(self, parent, block=False):
        self.parent, self.block = parent, block
        self.root, self.path = None, ()

    def __repr__(self):
        return "coeffs(%r)" % self.parent

    def get(self, I):
        return I.opq("coeffs", I.tens(self.parent.get(I)))

    def set(self, I, val):
        t = I.tens(self.parent.get(I))
        if isinstance(val, T) and not isinstance(self.parent, LVView):
            c = val.gen().const()
            if c == 0 and self.block:
                # starts at the first value of the underlying matrix: these are the values of the block
                # only if the block starts there
                first = eq(outer_first(t), 0)
                old = T.base("after_first_nnz." + (t.name or I.uid("t")), t.rows, t.cols)
                self.parent.set(I, T(t.rows, t.cols, lambda i, j: ite(first, ZERO, old.at(i, j)), meta=t.meta))
                return
            if c == 0:
                self.parent.set(I, T(t.rows, t.cols, lambda i, j: ZERO, meta=t.meta))
                return
        if isinstance(val, T) and isinstance(self.parent, LVView):
            I.events.append(("view-coeffs", I.st.pc))
            self.parent.set(I, T(t.rows, t.cols, lambda i, j: ZERO))
            return
        self.parent.set(I, T.base(I.uid("coeffs"), t.rows, t.cols, t.meta))


def outer_first(t):
    """number of values stored before the first one of a block of a sparse matrix"""
    n = "outerIndexPtr(%s)" % (t.name or t.gen().key)
    tm.INT_SYMS.add(n)
    return el(n, ZERO)


def view(o, rows, cols, mp, guard=None, meta=None):
    return LVView(o, rows, cols, mp, guard, meta)


def targ_ints(I, fnode):
    out = []
    for a in fnode.get("targs") or []:
        if isinstance(a, dict) and "v" in a:
            out.append(a["v"])
        elif isinstance(a, int) and not isinstance(a, bool):
            out.append(a)
    return out


def resized(I, o, rows, cols):
    """tensor at o resized: same content when the size is unchanged"""
    t = o.get(I)
    t = I.tens(t) if not isinstance(t, Undef) or "eig" in (t.ty or {}) else t
    if isinstance(t, T) and t.rows == rows and t.cols == cols:
        return t
    return T.base(I.uid("uninit"), rows, cols)


def is_rowvec_type(ty):
    return ty.get("rows") == 1 and ty.get("cols") != 1


def set_const(I, o, args, e, val):
    o = Vlv(I, o)
    if isinstance(o, LVCoeffs):
        o.set(I, tconst(1, 1, val))
        return o
    t = I.tens(o.get(I))
    rows, cols = t.rows, t.cols
    if len(args) == 1:
        n = S(I, args[0])
        if is_rowvec_type(I.prog.ty(e.get("o", {"t": -1}))):
            rows, cols = ONE, n
        else:
            rows, cols = n, ONE if cols == ONE or I.prog.ty(e.get("o", {"t": -1})).get("cols") == 1 else cols
    elif len(args) >= 2:
        rows, cols = S(I, args[0]), S(I, args[1])
    f = val if callable(val) else (lambda i, j: val)
    if isinstance(o, LVView):
        o.set(I, T(o.rows, o.cols, f))
    else:
        o.set(I, T(rows, cols, f, meta={k: v for k, v in t.meta.items() if k == "comp"}))
    return o


def blockdims(I, fnode, args, e, nidx, ndim):
    """sizes of a block: from the static result type, else from the trailing arguments"""
    ty = I.prog.ty(e)
    idx = [S(I, a) for a in args[:nidx]]
    sz = [S(I, a) for a in args[nidx:nidx + ndim]]
    return idx, sz, ty


def m_block(I, fnode, o, args, e):
    name = fnode["name"]
    o = Vlv(I, o)
    if isinstance(o, LVView):
        R, C = o.rows, o.cols
    else:
        t = TT(I, o)
        R, C = t.rows, t.cols
        if isinstance(o.get(I), Undef):
            o.set(I, t)
    ty = I.prog.ty(e)
    st = targ_ints(I, fnode)
    sr, sc = ty.get("rows", -1), ty.get("cols", -1)
    isrow = (R == ONE and C != ONE) or (is_rowvec_type(ty))
    a = [S(I, x) for x in args]
    if name in ("segment", "head", "tail", "middleRows", "middleCols", "topRows", "bottomRows", "leftCols", "rightCols"):
        horiz = name in ("middleCols", "leftCols", "rightCols") or (name in ("segment", "head", "tail") and isrow)
        start_given = name in ("segment", "middleRows", "middleCols")
        if start_given:
            s0 = a[0]
            n = a[1] if len(a) > 1 else P(sc if horiz else sr)
        else:
            n = a[0] if a else P(sc if horiz else sr)
            total = C if horiz else R
            s0 = ZERO if name in ("head", "topRows", "leftCols") else total - n
        if horiz:
            return view(o, R, n, lambda i, j: (i, j + s0))
        return view(o, n, C, lambda i, j: (i + s0, j))
    if name == "row":
        return view(o, ONE, C, lambda i, j: (a[0], j))
    if name == "col":
        return view(o, R, ONE, lambda i, j: (i, a[0]))
    # 2d blocks
    if name == "block":
        i0, j0 = a[0], a[1]
        r = a[2] if len(a) > 2 else P(sr)
        c = a[3] if len(a) > 3 else P(sc)
    else:
        r = a[0] if a else P(sr)
        c = a[1] if len(a) > 1 else P(sc)
        i0 = R - r if name.startswith("bottom") else ZERO
        j0 = C - c if name.endswith("RightCorner") else ZERO
    return view(o, r, c, lambda i, j: (i + i0, j + j0))


BLOCKS = {"segment", "head", "tail", "middleRows", "middleCols", "topRows", "bottomRows", "leftCols", "rightCols",
          "row", "col", "block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"}


def sqrt_(x):
    c = x.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(Fraction(n, d))
    tm.NONNEG_SYMS.add("fn:sqrt")
    return fn("sqrt", x)


def triview(I, o, mode):
    t = TT(I, o)
    upper = bool(mode & 2)
    strict = bool(mode & 8)
    unit = bool(mode & 4)
    g = (lambda i, j: gt(j - i, 0) if strict else ge(j - i, 0)) if upper else \
        (lambda i, j: gt(i - j, 0) if strict else ge(i - j, 0))
    return view(o, t.rows, t.cols, lambda i, j: (i, j), guard=g)


def tsymL(a):
    if a.name in tm.SYM_TENSORS and not a.upds:
        return a
    if a.name is not None and not a.upds:
        nm = a.name + "^sL"
        tm.SYM_TENSORS.add(nm)
        return T(a.rows, a.cols, lambda i, j: el(nm, i, j), name=nm)
    return T(a.rows, a.cols, lambda i, j: ite(ge(i - j, 0), a.at(i, j), a.at(j, i)))


def opaque_tensor(I, name, rows, cols, *args):
    fl = []
    for a in args:
        fl += I.flat(a)
    return tfn(name, rows, cols, tuple(fl))


def lib_static(I, fnode, args, e):
    """static Eigen factories"""
    name = fnode["name"]
    ty = I.prog.ty(e)
    r, c = ty.get("rows", -1), ty.get("cols", -1)
    a = [S(I, x) for x in args]
    k = len(a)
    if name == "Constant":
        k -= 1
    def dims():
        if k == 0:
            return (P(r) if r >= 0 else ZERO), (P(c) if c >= 0 else ZERO)
        if k == 1:
            return (a[0], ONE) if c == 1 or r != 1 else (ONE, a[0])
        return a[0], a[1]
    if name in ("Zero", "Ones"):
        return tconst(*dims(), ZERO if name == "Zero" else ONE)
    if name == "Constant":
        return tconst(*dims(), a[-1])
    if name == "Identity":
        return tident(*dims())
    if name in ("Unit",):
        ix = a[-1]
        if len(a) == 1:
            rr, cc = P(r), P(c)
        else:
            rr, cc = (a[0], ONE) if c == 1 else (ONE, a[0])
        return T(rr, cc, (lambda i, j: delta(i, ix)) if cc == ONE else (lambda i, j: delta(j, ix)))
    if name in ("UnitX", "UnitY", "UnitZ", "UnitW"):
        ix = P("XYZW".index(name[-1]))
        return T(P(r), P(c), lambda i, j: delta(i, ix))
    return None


EIG_EW1 = {
    "cwiseAbs": abs_, "abs": abs_, "cwiseInverse": inv, "cwiseSqrt": sqrt_, "sqrt": sqrt_,
    "cwiseAbs2": lambda x: x * x, "abs2": lambda x: x * x, "square": lambda x: x * x,
    "cube": lambda x: x * x * x, "real": lambda x: x, "conjugate": lambda x: x,
}
EIG_EW2 = {
    "cwiseProduct": lambda x, y: x * y, "cwiseQuotient": lambda x, y: x / y,
    "cwiseMax": lambda x, y: maxof([x, y]), "cwiseMin": lambda x, y: minof([x, y]),
    "max": lambda x, y: maxof([x, y]), "min": lambda x, y: minof([x, y]),
}


def iseig(fnode):
    return fnode["qn"].startswith("Eigen::")


def eigen_method(I, fnode, o, args, e):
    name = fnode["name"]
    qn = fnode["qn"]
    o = Vlv(I, o)
    v = None
    # iterators
    if "InnerIterator" in qn:
        it = o.get(I)
        if isinstance(it, SpIter):
            if name.startswith("operator bool"):
                return bsym("sp-valid")
            if isinstance(it.pos, Poly):
                r, c = it.rc()
                if name == "row":
                    return r
                if name == "col":
                    return c
                if name == "index":
                    return it.pos
                if name == "outer":
                    return it.k
                if name == "value":
                    return I.tens(it.M.get(I) if isinstance(it.M, LV) else it.M).at(r, c)
                if name == "valueRef":
                    return LVElem(it.M, r, c)
        I.note("iterator " + name, e)
        return sym(I.uid("it"))
    if name in BLOCKS:
        return m_block(I, fnode, o, args, e)
    if isinstance(o, (LVElem,)):
        v = o.get(I)
    if name in ("noalias", "eval", "derived", "const_cast_derived", "nestedExpression", "matrix", "array",
                "const_derived"):
        if name in ("eval",):
            t = TT(I, o)
            return T(t.rows, t.cols, t.f, t.name, t.upds, {k: x for k, x in t.meta.items()})
        return o
    # decompositions
    cls = qn.split("::")[1].split("<")[0] if qn.count("::") >= 1 else ""
    r = decomp_method(I, fnode, o, args, e, qn)
    if r is not NotImplemented:
        return r
    if name == "coeffs":
        return LVCoeffs(o, is_block(I, e))
    if name in ("setZero", "setOnes", "setConstant", "setIdentity", "fill", "setRandom"):
        if isinstance(o, LVCoeffs):
            if name == "setZero":
                o.set(I, tconst(1, 1, ZERO))
            else:
                o.set(I, tconst(1, 1, ONE))
            return o
        if name == "setZero":
            r = set_const(I, o, args, e, ZERO)
            if I.prog.ty(e.get("o", {"t": -1})).get("eig") == "sparse" and not isinstance(o, LVView):
                t = o.get(I)
                # SparseMatrix::setZero removes all entries; it keeps the (un)compressed mode
            return r
        if name == "setOnes":
            return set_const(I, o, args, e, ONE)
        if name == "setIdentity":
            r = set_const(I, o, args, e, lambda i, j: delta(i, j))
            return r
        if name in ("setConstant", "fill"):
            return set_const(I, o, args[:-1], e, S(I, args[-1]))
        return set_const(I, o, args, e, lambda i, j, n=I.uid("random"): el(n, i, j))
    if name in ("resize", "conservativeResize"):
        ty = I.prog.ty(e["o"]) if e.get("o") else {}
        a = [S(I, x) for x in args]
        if len(a) == 1:
            rows, cols = (ONE, a[0]) if is_rowvec_type(ty) else (a[0], ONE)
        else:
            rows, cols = a[0], a[1]
        if ty.get("eig") == "sparse":
            t = o.get(I)
            m = t.meta if isinstance(t, T) else {}
            o.set(I, T(rows, cols, lambda i, j: ZERO, meta={"comp": m.get("comp", TRUE)}))
            I.events.append(("sp-resize", repr(o), I.st.pc))
            return o
        if ty.get("rows", -1) >= 0 and ty.get("cols", -1) >= 0:
            return o
        o.set(I, resized(I, o, rows, cols))
        return o
    if name in ("swap",):
        b = Vlv(I, args[0])
        x, y = o.get(I), b.get(I)
        o.set(I, y)
        b.set(I, x)
        return Opq("void")
    # sparse storage
    if name in ("reserve", "makeCompressed", "uncompress", "finalize", "prune", "data", "squeeze", "setFromTriplets",
                "setFromSortedTriplets"):
        t = o.get(I)
        if name in ("reserve", "makeCompressed", "uncompress") and isinstance(t, T):
            m = dict(t.meta)
            if name == "makeCompressed":
                m["comp"] = TRUE
            elif name == "uncompress":
                m["comp"] = FALSE
            elif args and isinstance(V(I, args[0]), (T, VecV)):
                m["comp"] = FALSE
            t2 = T(t.rows, t.cols, t.f, t.name, t.upds, m)
            if not isinstance(o, LVView):
                o.set(I, t2)
            I.events.append((name, repr(o), I.st.pc))
            return Opq("void")
        if name in ("prune", "finalize", "squeeze"):
            return Opq("void")
        if name == "setFromTriplets":
            I.note("setFromTriplets", e)
            o.set(I, T.base(I.uid("triplets"), I.tens(t).rows, I.tens(t).cols, {"comp": TRUE}))
            return Opq("void")
    if name == "isCompressed":
        t = o.get(I)
        if isinstance(t, T) and not isinstance(o, LVView):
            c = t.meta.get("comp")
            if c is not None:
                return c
        return bsym("comp:" + repr(o))
    if name in ("coeffRef", "coeff", "insert", "insertBack", "insertBackByOuterInner", "insertByOuterInner"):
        if name == "insert":
            t = o.get(I)
            if isinstance(t, T) and not isinstance(o, LVView):
                o.set(I, T(t.rows, t.cols, t.f, t.name, t.upds, dict(t.meta, comp=FALSE)))
        return I.elem(o, [S(I, a) for a in args])
    if name in ("outerIndexPtr", "innerIndexPtr", "valuePtr", "innerNonZeroPtr"):
        t = TT(I, o)
        nm = "%s(%s)" % (name, t.name or t.gen().key)
        if name != "valuePtr":
            tm.INT_SYMS.add(nm)
        ot = I.prog.ty(e.get("o", {"t": -1}))
        return PtrArr(nm, t if ot.get("eig") == "sparse" and ot.get("name") != "SparseVector" else None,
                      "first" if name == "outerIndexPtr" and ot.get("name") == "SparseMatrix" else "")
    t = None
    if name in ("rows", "cols", "size", "outerSize", "innerSize", "nonZeros"):
        if isinstance(o, LVView):
            R, C = o.rows, o.cols
        else:
            t = TT(I, o)
            R, C = t.rows, t.cols
        if name == "rows":
            return R
        if name == "cols":
            return C
        if name == "size":
            return C if R == ONE else R if C == ONE else R * C
        rm = bool(I.prog.ty(e["o"]).get("rm")) if e.get("o") else False
        if name == "outerSize":
            return R if rm else C
        if name == "innerSize":
            return C if rm else R
        t = TT(I, o)
        if "pat" in t.meta:
            k, l = tm.fresh("p"), tm.fresh("p")
            tm.RANGES[k], tm.RANGES[l] = (ZERO, t.rows), (ZERO, t.cols)
            from .interp import stored
            return tm.sum_(k, ZERO, t.rows, tm.sum_(l, ZERO, t.cols, ite(stored(t.meta["pat"], bv(k), bv(l)), ONE, ZERO)))
        tm.INT_SYMS.add("nnz(%s)" % (t.name or "?"))
        return fn("nnz", lam(t))
    if name in ("transpose", "adjoint"):
        if isinstance(o, LVView):
            R, C = o.rows, o.cols
        else:
            t = TT(I, o)
            R, C = t.rows, t.cols
        return view(o, C, R, lambda i, j: (j, i))
    if name == "replicate" and len(args) == 2:
        t = TT(I, o)
        r, c = S(I, args[0]), S(I, args[1])
        return T(t.rows * r, t.cols * c, lambda i, j: t.at(ZERO if t.rows == ONE else fn("mod", i, t.rows) if r != ONE else i,
                                                           ZERO if t.cols == ONE else fn("mod", j, t.cols) if c != ONE else j))
    if name == "reshaped" and not args:
        t = TT(I, o)
        if t.cols == ONE:
            return t
        if 1 in targ_ints(I, fnode)[:1]:
            return T(t.rows * t.cols, ONE, lambda i, j: t.at(fn("idiv", i, t.cols), fn("mod", i, t.cols)))
        return T(t.rows * t.cols, ONE, lambda i, j: t.at(ZERO if t.rows == ONE else fn("mod", i, t.rows), fn("idiv", i, t.rows)))
    if name == "reshaped" and len(args) == 2 and ONE in (TT(I, o).cols, TT(I, o).rows):
        t = TT(I, o)
        r, c = S(I, args[0]), S(I, args[1])
        k = (lambda i, j: i * c + j) if 1 in targ_ints(I, fnode)[:1] else (lambda i, j: j * r + i)
        return T(r, c, (lambda i, j: t.at(k(i, j))) if t.cols == ONE else (lambda i, j: t.at(ZERO, k(i, j))))
    if name == "diagonal":
        t = TT(I, o)
        n = t.rows if t.rows == t.cols else minof([t.rows, t.cols])
        return view(o, n, ONE, lambda i, j: (i, i))
    if name == "triangularView":
        return triview(I, o, targ_ints(I, fnode)[0])
    if name == "selfadjointView":
        m = (targ_ints(I, fnode) or [2])[0]
        t = TT(I, o)
        I.events.append(("selfadjoint", m, I.st.pc))
        return tsymU(t) if m & 2 else tsymL(t)
    if name == "applyOnTheLeft":
        a = TT(I, args[0])
        b = TT(I, o)
        r = I.perm_mul(a, b)
        o.set(I, r)
        return Opq("void")
    if name == "applyOnTheRight":
        r = I.perm_mul(TT(I, o), TT(I, args[0]))
        o.set(I, r)
        return Opq("void")
    if name in ("addTo", "subTo", "evalTo"):
        dst = Vlv(I, args[0])
        a = TT(I, o)
        if name == "evalTo":
            dst.set(I, a)
        else:
            dst.set(I, (tadd if name == "addTo" else tsub)(TT(I, dst), a))
        return Opq("void")
    if name == "data":
        return RefV(o)
    if name in ("operator()", "operator[]"):
        return I.elem(o, [S(I, a) for a in args])
    t = TT(I, o)
    if name in ("colwise", "rowwise"):
        return view(o, t.rows, t.cols, lambda i, j: (i, j), meta={"vw": name})
    if "vw" in t.meta and "VectorwiseOp" in qn:
        r = vectorwise(I, name, t, args)
        if r is not None:
            return r
        I.note("Eigen %s.%s" % (t.meta["vw"], name), e)
        return tfn("?vectorwise." + name, t.rows, t.cols, (lam(t),))
    if name in EIG_EW1 and not args:
        r = t.map(EIG_EW1[name])
        if name == "cwiseInverse" and "op" in t.meta:
            r.meta = {"op": (t.meta["op"][0] + "inv", t.meta["op"][1])}
        return r
    if name == "inverse" and "Array" in qn:
        return t.map(inv)
    if name in EIG_EW2 and len(args) == 1:
        x = V(I, args[0])
        g = EIG_EW2[name]
        if isinstance(x, T):
            return tcw(t, x, g)
        s = I.scalar(x)
        return t.map(lambda q: g(q, s))
    if name == "asDiagonal":
        r = tdiag(t)
        if "op" in t.meta:
            r.meta = {"op": t.meta["op"]}
        return r
    if name == "toDenseMatrix":
        return t
    if name in ("cast", "template cast"):
        ta = fnode.get("targs") or []
        if ta and isinstance(ta[0], dict) and "t" in ta[0]:
            ety = I.prog.types[ta[0]["t"]]
            if ety.get("k") == "rec" or ety.get("k") == "float" or True:
                return T(t.rows, t.cols, t.f, t.name, t.upds)
        return t
    if name == "lpNorm":
        p = (targ_ints(I, fnode) or [None])[0]
        if p == -1:
            return norminf(t)
        if p == 1:
            return tsum(t, abs_)
        if p == 2:
            return sqrt_(tsum(t, lambda x: x * x))
        I.note("lpNorm<%s>" % p, e)
        return fn("?lpNorm%s" % p, lam(t))
    if name in ("norm", "stableNorm"):
        return sqrt_(tsum(t, lambda x: x * x))
    if name == "squaredNorm":
        return tsum(t, lambda x: x * x)
    if name == "dot":
        return tdot(t, TT(I, args[0]))
    if name == "sum":
        return tsum(t)
    if name == "mean":
        n = t.rows if t.cols == ONE else t.cols if t.rows == ONE else t.rows * t.cols
        return tsum(t) / n
    if name in ("maxCoeff",) and not args:
        return tmax(t)
    if name in ("minCoeff",) and not args:
        return -tmax(t.map(lambda x: -x))
    if name == "trace":
        k = fresh()
        tm.RANGES[k] = (ZERO, t.rows)
        return sum_(k, ZERO, t.rows, t.at(bv(k), bv(k)))
    if name in ("allFinite", "hasNaN"):
        return pred(name, lam(t))
    if name in ("isApprox", "isZero", "isIdentity", "isOnes", "isMuchSmallerThan"):
        return pred(name, lam(t), *[x for a in args for x in I.flat(V(I, a))])
    if name in ("all", "any"):
        k, l = fresh(), fresh()
        tm.RANGES[k] = (ZERO, t.rows)
        tm.RANGES[l] = (ZERO, t.cols)
        x = t.at(bv(k) if t.rows != ONE else ZERO, bv(l) if t.cols != ONE else ZERO)
        b = ne(x, 0)
        if name == "all":
            b = not_(b)
        if t.cols != ONE:
            b = exists_f(l, ZERO, t.cols, b)
        if t.rows != ONE:
            b = exists_f(k, ZERO, t.rows, b)
        return not_(b) if name == "all" else b
    if name in ("inverse", "determinant", "exp", "log", "pow", "sin", "cos", "tan", "normalized", "cross", "reverse",
                "unaryExpr", "replicate", "colwise", "rowwise", "reshaped", "prod", "eulerAngles"):
        args_ = [x for a in args for x in I.flat(V(I, a))]
        if name in ("determinant", "prod"):
            return fn(name, lam(t), *args_)
        if name in ("inverse",):
            return tfn(name, t.rows, t.cols, (lam(t),))
        if name in ("exp", "log", "sin", "cos", "tan"):
            return t.map(lambda x: fn(name, x))
        I.note("Eigen " + name, e)
        return tfn("?" + name, t.rows, t.cols, tuple([lam(t)] + args_))
    if name.startswith("operator") and I.prog.ty(e).get("k") in ("float", "int") and not args:
        return t.at(ZERO, ZERO)
    if name == "value" and not args:
        return t.at(ZERO, ZERO)
    if name in ("x", "y", "z", "w") and not args:
        return I.elem(o, [P("xyzw".index(name))])
    if name in ("begin", "end", "cbegin", "cend"):
        return RefV(o)
    I.note("Eigen " + name, e)
    r = I.opq("eig." + name, t, *[V(I, a) for a in args])
    clobber(I, o, *args)
    return r


def vectorwise(I, name, t, args):
    """partial reductions: a row of values of the columns (colwise), a column of values of the rows (rowwise)"""
    def part(x):
        return T(t.rows, ONE, lambda i, j: t.at(i, x)) if t.meta["vw"] == "colwise" else T(ONE, t.cols, lambda i, j: t.at(x, j))
    red = {"norm": lambda p: sqrt_(tsum(p, lambda x: x * x)), "stableNorm": lambda p: sqrt_(tsum(p, lambda x: x * x)),
           "squaredNorm": lambda p: tsum(p, lambda x: x * x), "sum": tsum, "maxCoeff": tmax,
           "minCoeff": lambda p: -tmax(p.map(lambda x: -x)),
           "mean": lambda p: tsum(p) / (t.rows if t.meta["vw"] == "colwise" else t.cols)}
    if name in red and not args:
        if t.meta["vw"] == "colwise":
            return T(ONE, t.cols, lambda i, j: red[name](part(j)))
        return T(t.rows, ONE, lambda i, j: red[name](part(i)))
    if name == "reverse" and not args:
        if t.meta["vw"] == "colwise":
            return T(t.rows, t.cols, lambda i, j: t.at(t.rows - 1 - i, j))
        return T(t.rows, t.cols, lambda i, j: t.at(i, t.cols - 1 - j))
    return None


def is_decomp(ty):
    return ty.get("name") in DECOMP


def decomp_method(I, fnode, o, args, e, qn):
    name = fnode["name"]
    ty = I.prog.ty(e["o"]) if e.get("o") else {}
    v = o.get(I) if not isinstance(o, LVView) else None
    isd = is_decomp(ty) or (isinstance(v, Rec) and "key" in v.fields and "mat" in v.fields)
    if isd:
        if name in ("compute", "factorize", "analyzePattern"):
            m = TT(I, args[0])
            rec = v if isinstance(v, Rec) else Rec(ty.get("s"), {"mat": Undef(name="mat")})
            if name == "analyzePattern":
                rec = rec.set("pattern", Opq("pattern:fresh"))
                I.events.append(("analyzePattern", repr(args[0]), I.st.pc, I.prog.loc(e)))
                o.set(I, rec)
                return Opq("void")
            key = I.decomp_key(ty, m)
            if name == "compute":
                rec = rec.set("pattern", Opq("pattern:fresh"))
            rec = rec.set("mat", m).set("key", Opq(key))
            I.events.append((name, key, I.st.pc, I.prog.loc(e), rec.fields.get("pattern")))
            o.set(I, rec)
            return o
        key = V(I, v.fields.get("key")) if isinstance(v, Rec) else Opq("dec:" + repr(o))
        if not isinstance(key, Opq):
            key = Opq("dec?:" + repr(key))
        key = key.key
        if name == "info":
            tm.INT_SYMS.add("info")
            return fn("info", StrKey(key))
        if name == "solve":
            return I.solve_result(key, TT(I, args[0]))
        if name == "solveInPlace":
            d = Vlv(I, args[0])
            d.set(I, I.solve_result(key, TT(I, d)))
            return TRUE
        mat = v.fields.get("mat") if isinstance(v, Rec) else None
        n = mat.rows if isinstance(mat, T) else sym("n:" + key, True)
        OPS = {"permutationP": "P", "permutationPinv": "Pinv", "matrixL": "L", "matrixU": "U", "vectorD": "D"}
        if name in OPS:
            t = tfn(name, n, ONE if name == "vectorD" else n, (StrKey(key),))
            t.meta = {"op": (OPS[name], key)}
            return t
        if name in ("isPositive", "isNegative"):
            return pred(name, StrKey(key))
        if name in ("rcond", "rank", "determinant"):
            return fn(name, StrKey(key))
        I.note("decomposition " + name, e)
        return I.opq("dec." + name, key)
    if name == "solveInPlace":
        t = TT(I, o)
        op = t.meta.get("op")
        d = Vlv(I, args[0])
        if op:
            d.set(I, I.apply_op((op[0] + "inv", op[1]), t, TT(I, d)))
            return Opq("void")
        m = TT(I, d)
        d.set(I, tfn("trisolve", m.rows, m.cols, (lam(t), lam(m))))
        return Opq("void")
    if name == "solve" and "Triangular" in qn:
        t, m = TT(I, o), TT(I, args[0])
        return tfn("trisolve", m.rows, m.cols, (lam(t), lam(m)))
    if name in ("ldlt", "llt", "lu", "partialPivLu", "fullPivLu", "colPivHouseholderQr", "householderQr",
                "completeOrthogonalDecomposition", "fullPivHouseholderQr"):
        rty = I.prog.ty(e)
        return I.decomp_value(rty, TT(I, o))
    if name == "selfadjointView" and False:
        return None
    return NotImplemented


MATH1 = {"fabs": abs_, "abs": abs_, "sqrt": sqrt_, "fabsf": abs_, "labs": abs_}


def period_of(I, ty):
    if ty.get("qn") == "std::chrono::time_point":
        for a in ty.get("ta") or []:
            t = I.prog.types[a["t"]] if "t" in a else {}
            if t.get("qn") == "std::chrono::duration":
                return I.period(t)
        return (1, 1)
    return I.period(ty)


def is_int_rep(I, ty):
    if ty.get("qn") == "std::chrono::time_point":
        for a in ty.get("ta") or []:
            t = I.prog.types[a["t"]] if "t" in a else {}
            if t.get("qn") == "std::chrono::duration":
                return is_int_rep(I, t)
        return True
    a = (ty.get("ta") or [{}])[0]
    return "t" in a and I.prog.types[a["t"]].get("k") in ("int", "uint")


def chrono(I, fnode, o, args, e):
    name = fnode["name"]
    if name == "now":
        n = sym(I.uid("now"))
        I.events.append(("now", n, I.st.pc))
        return n
    if name in ("duration_cast", "time_point_cast"):
        x = S(I, args[0])
        ty = I.prog.ty(e)
        if ty.get("qn") in ("std::chrono::duration", "std::chrono::time_point") and is_int_rep(I, ty):
            num, den = period_of(I, ty)
            src = I.prog.ty(e["a"][0]) if e.get("a") else {}
            if src.get("qn") and is_int_rep(I, src):
                n2, d2 = period_of(I, src)
                if Fraction(n2, d2) % Fraction(num, den) == 0:
                    return x
            p = P(Fraction(num, den))
            return fn("toint", x / p) * p
        return x
    if name == "count":
        num, den = I.period(I.prog.ty(e["o"]))
        return S(I, o) / P(Fraction(num, den))
    if name == "time_since_epoch":
        return S(I, o)
    if name in ("zero", "min", "max"):
        return ZERO if name == "zero" else sym("dur." + name)
    if name.startswith("operator"):
        op = name[8:]
        vals = [S(I, a) for a in ([o] if o is not None else []) + args]
        if len(vals) == 2:
            if op == "<=>":
                return vals[0] - vals[1]
            return I.binop(op, vals[0], vals[1])
    return None


def optional(I, fnode, o, args, e):
    name = fnode["name"]
    o = Vlv(I, o)
    v = o.get(I)
    if not isinstance(v, Opt):
        if isinstance(v, Undef):
            v = Opt(FALSE, Undef(name="opt"))
        else:
            v = Opt(pred("has", StrKey(repr(v)[:100])), v)
    if name == "has_value" or name == "operator bool":
        return v.has
    if name == "value":
        I.events.append(("opt-value", v.has, I.st.pc, I.prog.loc(e)))
        return v.val.lv if isinstance(v.val, RefV) and I.prog.ty(e).get("qn") != "std::reference_wrapper" else \
            (o.sub("*") if not isinstance(o, LVTemp) else v.val)
    if name == "value_or":
        d = V(I, args[0])
        d = I.convert(d, I.prog.ty(e))
        return merge(v.has, v.val, d) if not v.has.is_false() else d
    if name == "reset":
        o.set(I, Opt(FALSE, Undef(name="opt")))
        return Opq("void")
    if name == "emplace":
        ty = I.prog.types[I.prog.ty(e["o"])["ta"][0]["t"]] if e.get("o") else {}
        if not args:
            x = I.default(ty, "emplaced")
        elif len(args) == 1:
            x = I.convert(V(I, args[0]), ty)
        else:
            x = I.opq("emplace", *[V(I, a) for a in args])
        o.set(I, Opt(TRUE, x))
        return o.sub("*")
    if name in ("operator*", "operator->"):
        return o.sub("*")
    if name == "swap":
        b = Vlv(I, args[0])
        x, y = o.get(I), b.get(I)
        o.set(I, y)
        b.set(I, x)
        return Opq("void")
    I.note("optional::" + name, e)
    return I.opq("optional." + name, v)


def vector(I, fnode, o, args, e):
    name = fnode["name"]
    o = Vlv(I, o)
    v = o.get(I)
    if isinstance(v, Undef):
        v = VecV(ZERO, lambda i: Undef())
        o.set(I, v)
    if isinstance(v, Seq):
        its = v.items
        v = VecV(P(len(its)), lambda i: its[int(P(i).const())] if P(i).const() is not None else I.opq("arr", v, i))
    if not isinstance(v, VecV):
        if name in ("size",):
            return sym("size:" + (v.key if isinstance(v, Opq) else repr(v)[:60]), True)
        I.note("vector::%s on %r" % (name, v), e)
        return I.opq("vec." + name, v)
    if name == "size":
        return v.size
    if name == "empty":
        return eq(v.size, 0)
    if name in ("push_back", "emplace_back"):
        ety = I.prog.types[I.prog.ty(e["o"])["ta"][0]["t"]] if e.get("o") and I.prog.ty(e["o"]).get("ta") else {}
        if len(args) == 1:
            x = I.convert(V(I, args[0]), ety)
        elif not args:
            x = I.default(ety, "elem")
        else:
            x = I.from_list(Seq([V(I, a) for a in args], "list"), ety, "elem", e)
        n, g = v.size, v.f
        def f(i, n=n, g=g, x=x):
            i = P(i)
            if i == n:
                return x
            d = (i - n).const()
            if d is not None and d < 0:
                return g(i)
            if n == ZERO and False:
                return x
            gi = g(i)
            if isinstance(gi, Undef):
                return x
            return merge(eq(i, n), x, gi)
        o.set(I, VecV(n + 1, f))
        return o.sub(n)
    if name in ("back",):
        return o.sub(v.size - 1) if not isinstance(o, LVTemp) else v.f(v.size - 1)
    if name in ("front",):
        return o.sub(ZERO) if not isinstance(o, LVTemp) else v.f(ZERO)
    if name in ("at", "operator[]"):
        i = S(I, args[0])
        return o.sub(i) if not isinstance(o, LVTemp) else v.f(i)
    if name == "clear":
        o.set(I, VecV(ZERO, lambda i: Undef()))
        return Opq("void")
    if name == "pop_back":
        o.set(I, VecV(v.size - 1, v.f))
        return Opq("void")
    if name in ("reserve", "shrink_to_fit"):
        return Opq("void")
    if name == "resize":
        n = S(I, args[0])
        ety = I.prog.types[I.prog.ty(e["o"])["ta"][0]["t"]] if e.get("o") else {}
        d = V(I, args[1]) if len(args) > 1 else I.zero(ety)
        g, old = v.f, v.size
        if len(args) == 1 and ety.get("qn") in I.ext:
            # default-constructed elements of a type about which nothing is known
            nm = I.uid("fresh")
            o.set(I, VecV(n, lambda i: el(nm, i) if old == ZERO else merge(gt(old - i, 0), g(i), el(nm, i))))
            return Opq("void")
        if old == ZERO:
            o.set(I, VecV(n, lambda i: d))
        elif n == old:
            pass
        else:
            o.set(I, VecV(n, lambda i: merge(gt(old - i, 0), g(i), d)))
        return Opq("void")
    if name == "assign":
        n = S(I, args[0])
        d = V(I, args[1])
        o.set(I, VecV(n, lambda i: d))
        return Opq("void")
    if name == "data":
        return RefV(o)
    if name == "insert" and len(args) == 2:
        from .interp import IterV
        it = V(I, args[0])
        if isinstance(it, IterV) and I.prog.ty(e["o"]).get("ta"):
            x = I.convert(V(I, args[1]), I.prog.types[I.prog.ty(e["o"])["ta"][0]["t"]])
            o.set(I, inserted(v, it.pos, x))
            return IterV(o, it.pos)
    if name in ("begin", "end", "cbegin", "cend"):
        from .interp import IterV
        v = o.get(I)
        if isinstance(v, VecV):
            return IterV(o, ZERO if "begin" in name else v.size)
    if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
        return I.opq("iter." + name, repr(o))
    I.note("vector::" + name, e)
    r = I.opq("vec." + name, repr(o), *[V(I, a) for a in args])
    clobber(I, o, *args)
    return r


def inserted(v, p, x):
    """v with x inserted before position p"""
    p, g = P(p), v.f

    def f(i):
        i = P(i)
        d = (i - p).const()
        if d is not None:
            return x if d == 0 else g(i) if d < 0 else g(i - 1)
        return merge(eq(i, p), x, merge(gt(p - i, 0), g(i), g(i - 1)))
    r = VecV(v.size + 1, f)
    r.ins = (v, p, x)
    return r


def std_free(I, fnode, o, args, e):
    name = fnode["name"]
    n = len(args)
    if name in ("max", "min") and n >= 1:
        g = maxof if name == "max" else minof
        if n == 1:
            v = V(I, args[0])
            if isinstance(v, Seq):
                return g([I.scalar(x) for x in v.items])
            return I.scalar(v)
        return g([S(I, args[0]), S(I, args[1])])
    if name in MATH1 and n == 1:
        return MATH1[name](S(I, args[0]))
    if name == "clamp":
        x, lo, hi = [S(I, a) for a in args[:3]]
        return minof([maxof([x, lo]), hi])
    if name in ("move", "forward", "as_const", "addressof", "launder"):
        return args[0]
    if name in ("next", "prev") and n >= 1:
        from .interp import IterV
        it = V(I, args[0])
        if isinstance(it, IterV) and it.found is None:
            d = S(I, args[1]) if n > 1 else ONE
            return IterV(it.lv, it.pos + d if name == "next" else it.pos - d)
    if name == "distance" and n == 2:
        from .interp import IterV
        a, b = V(I, args[0]), V(I, args[1])
        if isinstance(a, IterV) and isinstance(b, IterV) and repr(a.lv) == repr(b.lv):
            return b.pos - a.pos
    if name in ("partial_sum", "inclusive_scan", "exclusive_scan") and n == (4 if name[0] == "e" else 3):
        # over arrays of a fixed length
        from .interp import IterV
        a, b, c = [V(I, x) for x in args[:3]]
        k = (b.pos - a.pos).const() if isinstance(a, IterV) and isinstance(b, IterV) and repr(a.lv) == repr(b.lv) else None
        if k is not None and 0 <= k <= 16 and isinstance(c, IterV) and isinstance(a.lv.get(I), Seq):
            s = S(I, args[3]) if n == 4 else ZERO
            for j in range(int(k)):
                x = I.scalar(a.at(I, P(j)).get(I))
                c.at(I, P(j)).set(I, s if n == 4 else s + x)
                s = s + x
            return IterV(c.lv, c.pos + k)
    if name in ("accumulate", "reduce") and n >= 3:
        from .interp import IterV
        a, b = V(I, args[0]), V(I, args[1])
        k = (b.pos - a.pos).const() if isinstance(a, IterV) and isinstance(b, IterV) and repr(a.lv) == repr(b.lv) else None
        if k is not None and 0 <= k <= 16 and isinstance(a.lv.get(I), Seq):
            s = S(I, args[2])
            for j in range(int(k)):
                x = a.at(I, P(j)).get(I)
                s = I.scalar(V(I, I.invoke(args[3], [LVTemp(s), LVTemp(x)], e))) if n > 3 else s + I.scalar(x)
            return s
        if isinstance(a, IterV) and isinstance(b, IterV) and repr(a.lv) == repr(b.lv) and a.found is None and b.found is None:
            w, c = tm.fresh("q"), sym(I.uid("acc"), True)
            tm.RANGES[w] = (ZERO, b.pos - a.pos)
            x = a.lv.sub(a.pos + bv(w)).get(I)
            r = I.scalar(V(I, I.invoke(args[3], [LVTemp(c), LVTemp(x)], e))) if n > 3 else c + I.scalar(x)
            d = r - c
            if not tm.names_of(c) & tm.names_of(d):
                return S(I, args[2]) + tm.sum_(w, ZERO, b.pos - a.pos, d)
    if name in ("find_if", "find_if_not", "find", "any_of", "all_of", "none_of", "count_if") and n >= 3:
        from .interp import IterV
        a, b = V(I, args[0]), V(I, args[1])
        if isinstance(a, IterV) and isinstance(b, IterV) and a.found is None and a.pos == ZERO and I.sizeof(a.lv) == b.pos:
            w = tm.fresh("f")
            tm.RANGES[w] = (ZERO, b.pos)

            def test(i):
                x = a.lv.sub(i).get(I)
                if name == "find":
                    return I.cond(I.binop("==", x, V(I, args[2])))
                c = I.cond(I.invoke(args[2], [LVTemp(x)], e))
                return not_(c) if name in ("find_if_not", "all_of") else c
            ex = exists(w, ZERO, b.pos, test(bv(w)))
            if name.startswith("find"):
                pos = first_pos(w, b.pos, test(bv(w)))
                return IterV(a.lv, pos, ex)
            if name == "count_if":
                return tm.sum_(w, ZERO, b.pos, ite(test(bv(w)), ONE, ZERO))
            return ex if name == "any_of" else not_(ex)
    if name == "swap" and n == 2:
        a, b = Vlv(I, args[0]), Vlv(I, args[1])
        x, y = a.get(I), b.get(I)
        if isinstance(a, LVView):
            x, y = T(I.tens(x).rows, I.tens(x).cols, I.tens(x).at), T(I.tens(y).rows, I.tens(y).cols, I.tens(y).at)
        a.set(I, y)
        b.set(I, x)
        return Opq("void")
    if name == "exchange":
        a = Vlv(I, args[0])
        x = a.get(I)
        nv = V(I, args[1])
        if isinstance(x, Opt) and not isinstance(nv, Opt):
            nv = Opt(FALSE, x.val) if isinstance(nv, Opq) and nv.key == "nullopt" else Opt(TRUE, nv)
        I.assign(a, nv, None)
        return x
    if name in ("isinf",):
        x = S(I, args[0])
        return or_(isinf(x, 1), isinf(x, -1))
    if name in ("isfinite", "isnan", "signbit"):
        return pred(name, S(I, args[0]))
    if name == "pow":
        x, p = S(I, args[0]), S(I, args[1])
        c = p.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            return x ** int(c)
        return fn("pow", x, p)
    if name in ("exp", "log", "sin", "cos", "tan", "atan", "atan2", "floor", "ceil", "round", "log2", "log10", "hypot",
                "trunc", "lround", "fmod", "copysign", "cbrt", "asin", "acos", "sinh", "cosh", "tanh", "expm1", "log1p"):
        return fn(name, *[S(I, a) for a in args])
    if name in ("fmax", "fmin"):
        return (maxof if name == "fmax" else minof)([S(I, a) for a in args])
    if name == "tie":
        return Seq([RefV(Vlv(I, a)) for a in args], "tuple")
    if name == "forward_as_tuple":
        return Seq([RefV(a) if isinstance(a, LV) and not isinstance(a, LVTemp) else V(I, a) for a in args], "tuple")
    if name in ("make_pair", "make_tuple"):
        return Seq([V(I, a) for a in args], "tuple")
    if name == "make_optional":
        return Opt(TRUE, V(I, args[0]))
    if name in ("ref", "cref"):
        return RefV(Vlv(I, args[0]))
    if name == "get" and n == 1:
        ix = targ_ints(I, fnode)
        a = args[0]
        v = V(I, a)
        if ix and isinstance(v, Seq):
            it = v.items[ix[0]]
            if isinstance(it, RefV):
                return it.lv
            al = Vlv(I, a)
            return al.sub(ix[0])
    if name in ("invoke",):
        return I.invoke(V(I, args[0]), args[1:], e, retty=I.prog.ty(e))
    if name == "apply":
        v = V(I, args[1])
        if isinstance(v, Seq):
            al = Vlv(I, args[1])
            xs = []
            for k, it in enumerate(v.items):
                xs.append(it.lv if isinstance(it, RefV) else al.sub(k))
            return I.invoke(V(I, args[0]), xs, e, retty=I.prog.ty(e))
    if name in ("setw", "setprecision", "setfill", "left", "right", "scientific", "fixed", "endl", "flush"):
        return Opq("iomanip")
    if name in ("make_shared", "make_unique"):
        root = I.uid("heap")
        ta = [a for a in fnode.get("targs") or [] if isinstance(a, dict) and "t" in a]
        ty = I.prog.types[ta[0]["t"]] if ta else {}
        if not args:
            I.st.roots[root] = I.default(ty, "heap")
        elif len(args) == 1:
            I.st.roots[root] = I.convert(V(I, args[0]), ty)
        else:
            I.st.roots[root] = I.opq("make", *[V(I, a) for a in args])
        return RefV(LV(root))
    if name in ("fill", "fill_n"):
        pass
    if name in ("infinity", "max", "epsilon", "lowest", "min", "quiet_NaN", "denorm_min") and n == 0:
        if name == "infinity":
            return INF
        if name == "quiet_NaN":
            return sym("NAN")
        return sym("lim." + name)
    if name == "get_if" or name == "holds_alternative":
        pass
    if name in ("size", "ssize", "empty", "data", "begin", "end", "cbegin", "cend") and n == 1 and isinstance(Vlv(I, args[0]).get(I), (VecV, Seq)):
        return vector(I, dict(fnode, name="size" if name == "ssize" else name), Vlv(I, args[0]), [], e)
    if name == "size":
        return vector(I, dict(fnode, name="size"), args[0], [], e)
    if name == "to_underlying":
        return S(I, args[0])
    if name in ("__assert_fail", "abort", "terminate", "exit"):
        I.events.append(("abort", I.st.pc, I.prog.loc(e)))
        I.st = None
        return Opq("abort")
    return NotImplemented


def clobber(I, *args):
    """what an unknown function may have written through its arguments is unknown afterwards"""
    from .interp import IterV
    for a in args:
        n = 0
        while n < 6:
            n += 1
            v = a.get(I) if isinstance(a, LV) and not isinstance(a, LVTemp) else a.val if isinstance(a, LVTemp) else a
            if isinstance(v, RefV):
                a = v.lv
            elif isinstance(v, IterV):
                a = v.lv
            else:
                break
        if isinstance(a, LV) and not isinstance(a, LVTemp):
            v = a.get(I)
            if v is not None and not isinstance(v, (Closure, UserFn, FuncV, StrV)):
                a.set(I, I.unknown_like(v, "?" + I.uid("out")))


def call(I, fnode, o, args, e):
    name, qn = fnode["name"], fnode["qn"]
    try:
        r = _call(I, fnode, o, args, e, name, qn)
    except (KeyError, IndexError, TypeError, AttributeError) as ex:
        if I.strict:
            raise
        I.note("lib %s: %r" % (qn[:60], ex), e)
        r = I.opq("lib." + name, I.uid("x"))
    return r


def _call(I, fnode, o, args, e, name, qn):
    if qn.startswith("std::chrono") or "std::chrono" in qn.split("<")[0]:
        r = chrono(I, fnode, o, args, e)
        if r is not None:
            return r
    if qn.startswith("std::optional"):
        return optional(I, fnode, o, args, e)
    if qn.startswith("std::reference_wrapper"):
        v = o.get(I)
        if isinstance(v, RefV):
            return v.lv
        return o
    if qn.startswith("std::vector") or qn.startswith("std::array") or qn.startswith("std::deque"):
        ov = V(I, o)
        if isinstance(ov, Seq):
            if name == "size":
                return P(len(ov.items))
            if name in ("operator[]", "at"):
                i = S(I, args[0])
                c = i.const()
                lvo = Vlv(I, o)
                if c is not None:
                    it = ov.items[int(c)]
                    return it.lv if isinstance(it, RefV) else lvo.sub(int(c))
                # symbolic index into a fixed array
                r = ov.items[-1]
                for k in range(len(ov.items) - 2, -1, -1):
                    r = merge(eq(i, k), ov.items[k], r)
                return r
            if name in ("front", "back"):
                return Vlv(I, o).sub(0 if name == "front" else len(ov.items) - 1)
            if name in ("begin", "end", "cbegin", "cend"):
                from .interp import IterV
                return IterV(Vlv(I, o), ZERO if "begin" in name else P(len(ov.items)))
            if name == "fill":
                Vlv(I, o).set(I, Seq([V(I, args[0])] * len(ov.items), ov.kind))
                return Opq("void")
        return vector(I, fnode, o, args, e)
    if qn.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
        v = o.get(I)
        if name == "get":
            return v
        if name in ("operator bool",):
            return TRUE if isinstance(v, RefV) else pred("ptr", StrKey(repr(v)[:60]))
    if o is None and (qn.startswith("std::") or "::" not in qn or qn.startswith("Eigen::numext")
                      or qn.startswith("Eigen::internal")):
        r = std_free(I, fnode, o, args, e)
        if r is not NotImplemented:
            return r
    if qn.startswith("std::numeric_limits"):
        r = std_free(I, fnode, None, args, e)
        if r is not NotImplemented:
            return r
    if iseig(fnode):
        if o is None:
            r = lib_static(I, fnode, args, e)
            if r is not None:
                return r
            # free functions on arrays
            if args and isinstance(V(I, args[0]), T):
                if name in EIG_EW1:
                    return TT(I, args[0]).map(EIG_EW1[name])
                return eigen_method(I, fnode, args[0], args[1:], e)
        else:
            return eigen_method(I, fnode, o, args, e)
    if qn.startswith(("std::basic_ostream", "std::ios", "std::basic_ios")):
        return Opq("ostream")
    hook = I.models.get("lib")
    if hook:
        r = hook(I, fnode, o, args, e)
        if r is not NotImplemented:
            return r
    # constants / conversions
    ty = I.prog.ty(e) if isinstance(e, dict) and "t" in e else {}
    if o is not None and name.startswith("operator ") and not args:
        return V(I, o)
    I.note("call " + qn[:100], e)
    # (values of the arguments first)
    vals = ([V(I, o)] if o is not None else []) + [V(I, a) for a in args]
    if ty.get("k") in ("float", "int", "uint", "enum", "bool") or "eig" in ty:
        fl = []
        for v in vals:
            fl += I.flat(v)
        r = I.typed_fn("lib:" + qn, ty, fl)
    else:
        r = I.opq("call:" + qn, *vals)
    clobber(I, *([o] if o is not None else []), *args)
    return r
