"""Abstract interpreter over the exported (type-resolved, instantiated) AST.

It computes, for a function, the canonical terms of everything it writes and returns: branches are
joined with gated (ite) values, counting loops and sparse iterations are summarised as
comprehensions (sums, maxima, element-wise writes), every other loop is summarised by its transfer
function from a havocked loop-head state.  Nothing is executed and no path is enumerated.
"""
import json
from fractions import Fraction
from .values import *
from . import terms as tm


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.types = d["types"]
        self.funcs = {f["id"]: f for f in d["funcs"]}
        self.records = {r["id"]: r for r in d["records"]}
        self.globals = {g["id"]: g for g in d["globals"]}
        self.path = path

    def find(self, name=None, cls=None, full=None, pred=None):
        out = []
        for f in self.funcs.values():
            if name is not None and f["name"] != name:
                continue
            if cls is not None and f.get("cls") != cls:
                continue
            if full is not None and full not in f["full"]:
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def ty(self, node):
        t = node.get("t") if isinstance(node, dict) else node
        return self.types[t] if t is not None and t >= 0 else {}

    def loc(self, node):
        f = node.get("f")
        return "%s:%s" % (self.files[f].replace("/repo/", "") if f is not None else "?", node.get("l", "?"))


class State:
    __slots__ = ("roots", "pc")

    def __init__(self, roots, pc):
        self.roots, self.pc = roots, pc

    def copy(self):
        return State(dict(self.roots), self.pc)


class LV:
    """location: a root variable + field path, optionally an element / view of a tensor there"""
    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return "%s%s" % (self.root, "".join("." + str(p) for p in self.path))

    def get(self, I):
        v = I.st.roots.get(self.root)
        if v is None:
            return Undef(name=str(self.root))
        for p in self.path:
            v = I.getfield(v, p)
        return v

    def set(self, I, val):
        if I.let_root is not None and self.root == I.let_root:
            val = I.let_bind(self.path, val)
        self._set(I, val, self.path)

    def _set(self, I, val, path):
        if not path:
            I.st.roots[self.root] = val
            return
        chain = [I.st.roots.get(self.root)]
        for p in path[:-1]:
            chain.append(I.getfield(chain[-1], p))
        for p, o in zip(reversed(path), reversed(chain)):
            val = I.setfield(o, p, val)
        I.st.roots[self.root] = val

    def sub(self, field):
        return LV(self.root, self.path + (field,))


class LVTemp(LV):
    """an rvalue"""
    def __init__(self, val):
        self.val = val
        self.root, self.path = None, ()

    def __repr__(self):
        return "tmp"

    def get(self, I):
        return self.val

    def set(self, I, val):
        self.val = val

    def sub(self, field):
        return LVTempSub(self, field)


class LVTempSub(LV):
    def __init__(self, parent, field):
        self.parent, self.field = parent, field
        self.root, self.path = None, ()

    def __repr__(self):
        return "%r.%s" % (self.parent, self.field)

    def get(self, I):
        return I.getfield(self.parent.get(I), self.field)

    def set(self, I, val):
        self.parent.set(I, I.setfield(self.parent.get(I), self.field, val))

    def sub(self, field):
        return LVTempSub(self, field)


VIEWTYPES = ("Map", "Block", "VectorBlock", "Diagonal", "Transpose", "Reverse", "IndexedView")


class LVView(LV):
    """block/transpose/diagonal... of the tensor stored at parent: index map (i,j)->(pi,pj)"""
    def __init__(self, parent, rows, cols, mp, guard=None, meta=None):
        self.parent, self.rows, self.cols, self.mp, self.guard = parent, P(rows), P(cols), mp, guard
        self.meta = meta or {}
        self.root, self.path = None, ()

    def __repr__(self):
        return "view(%r)" % self.parent

    def get(self, I):
        t = I.tens(self.parent.get(I))
        g = self.guard
        def f(i, j):
            pi, pj = self.mp(i, j)
            x = t.at(pi, pj)
            return ite(g(pi, pj), x, ZERO) if g else x
        m = dict(self.meta)
        return T(self.rows, self.cols, f, meta=m)

    def region(self, binders, i, j, guard, val, mode="set"):
        pi, pj = self.mp(i, j)
        g = and_(guard, self.guard(pi, pj)) if self.guard else guard
        return binders, pi, pj, g, val, mode

    def put(self, I, binders, i, j, guard, val, mode="set"):
        binders, pi, pj, g, val, mode = self.region(binders, i, j, guard, val, mode)
        if isinstance(self.parent, LVView):
            self.parent.put(I, binders, pi, pj, g, val, mode)
        else:
            t = I.tens(self.parent.get(I))
            self.parent.set(I, t.with_upd(Upd(binders, (pi, pj), g, val, mode)))

    def set(self, I, val):
        if isinstance(val, T):
            if (self.cols == ONE and val.rows == ONE and val.cols != ONE) or \
                    (self.rows == ONE and val.cols == ONE and val.rows != ONE):
                val = ttrans(val)           # vector assigned to a vector of the other orientation
            a, b = fresh(), fresh()
            tm.RANGES[a] = (ZERO, self.rows)
            tm.RANGES[b] = (ZERO, self.cols)
            bs = []
            i = j = ZERO
            if self.rows != ONE:
                bs.append((a, ZERO, self.rows))
                i = bv(a)
            if self.cols != ONE:
                bs.append((b, ZERO, self.cols))
                j = bv(b)
            self.put(I, bs, i, j, TRUE, val.at(i, j))
        else:
            self.put(I, [], ZERO, ZERO, TRUE, P(val))


def rmw_mode(t, i, j, val):
    """read-modify-write of one element recognised as an accumulation: x += d, x = max(x, d)"""
    if t.name is None or t.name not in names_of(val):
        return "set", val
    cur = t.at(i, j)
    d = val - cur
    if t.name not in names_of(d):
        return "add", d
    va = single_max(val)
    if va:
        ca = single_max(cur) or (cur,)
        rest = [x for x in va if x not in ca]
        if len(rest) == len(va) - len(ca) and rest and not any(t.name in names_of(x) for x in rest):
            return "max", maxof(rest)
    return "set", val


def single_max(p):
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b and c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0][0] == "max":
            return f[0][0][1]
    return None


class LVElem(LV):
    def __init__(self, parent, i, j):
        self.parent, self.i, self.j = parent, P(i), P(j)
        self.root, self.path = None, ()

    def __repr__(self):
        return "%r(%s,%s)" % (self.parent, show(self.i), show(self.j))

    def get(self, I):
        p = self.parent
        if isinstance(p, LVView):
            return p.get(I).at(self.i, self.j)
        v = p.get(I)
        if isinstance(v, (T, Undef)):
            return I.tens(v).at(self.i, self.j)
        if isinstance(v, VecV):
            return v.f(self.i)
        return I.opq("elem", v, self.i, self.j)

    def set(self, I, val):
        p = self.parent
        if not isinstance(val, (Poly, int, Bool)):
            val = I.scalar(val)
        if isinstance(p, LVView):
            p.put(I, [], self.i, self.j, TRUE, P(val))
            return
        t = I.tens(p.get(I))
        mode, val = rmw_mode(t, self.i, self.j, P(val))
        p.set(I, t.with_upd(Upd((), (self.i, self.j), TRUE, val, mode)))


class LVPick(LV):
    """element i of a sequence of fixed length, i not constant"""
    def __init__(self, parent, i):
        self.parent, self.i = parent, P(i)
        self.root, self.path = None, ()

    def __repr__(self):
        return "%r[%s]" % (self.parent, show(self.i))

    def items(self, I):
        return [x.lv.get(I) if isinstance(x, RefV) else x for x in self.parent.get(I).items]

    def get(self, I):
        xs = self.items(I)
        r = xs[-1]
        for n in range(len(xs) - 2, -1, -1):
            r = merge(eq(self.i, n), xs[n], r)
        return r

    def set(self, I, val):
        for n, x in enumerate(list(self.parent.get(I).items)):
            lv = x.lv if isinstance(x, RefV) else self.parent.sub(n)
            lv.set(I, merge(eq(self.i, n), val, lv.get(I)))

    def sub(self, field):
        return LVTempSub(self, field)


class Exit(Exception):
    pass


def broadcast(meta, v, rows, cols):
    """a vector for every column (colwise) or row (rowwise)"""
    k = meta.get("vw")
    if not k or not isinstance(v, T):
        return v
    return T(rows, cols, (lambda i, j: v.at(i if v.cols == ONE else ZERO, ZERO if v.cols == ONE else i)) if k == "colwise"
             else (lambda i, j: v.at(ZERO if v.rows == ONE else j, j if v.rows == ONE else ZERO)))


def vw_op(op, x, y):
    y = broadcast(x.meta, y, x.rows, x.cols)
    g = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p * inv(q)}[op]
    return T(x.rows, x.cols, lambda i, j: g(x.at(i, j), y.at(i, j) if isinstance(y, T) else y))


class LoopRec:
    """summary of a loop that is not a comprehension"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Frame:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this
        self.exits = []      # (pc, value, state)
        self.brk = None      # list or None
        self.cont = None


class Interp:
    let_root = None
    sumdepth = 0
    defs = None
    MAXDEPTH = 60
    unroll = 2                  # constant loops of at most so many iterations are unrolled

    def __init__(self, prog, models=None, dims=None):
        self.prog = prog
        self.st = State({}, TRUE)
        self.frames = []
        self.loops = []
        self.after_loop = None
        self.events = []
        self.unsupported = []
        self.lets = {}
        self.scatters = {}
        self.models = models or {}
        self.dims = dims or {}
        self.cnt = 0
        self.loopctx = []
        self.calls = set()
        self.quiet = 0
        self.fn_ovr = {}
        self.strict = False
        self.ext = ()        # qualified names of types whose values are uninterpreted scalars

    # ------------------------------------------------------------------ helpers
    # ------------------------------------------------------------------ named values
    def let_bind(self, path, val):
        """name the value stored in a member (its definition is kept in self.lets): keeps terms that
        are built from it small; expand() undoes it"""
        if self.sumdepth or not path:
            return val
        if isinstance(val, T):
            if val.cols != ONE or val.upds or val.meta.get("op") or val.meta.get("word"):
                return val
            g = val.gen()
            if len(g.key) < 30 or (len(g.terms) == 1 and val.name):
                return val
        elif isinstance(val, Poly):
            if len(val.key) < 60:
                return val
        else:
            return val
        nm = self.uid("let." + ".".join(str(x) for x in path))
        self.lets[nm] = val
        tm.SYM_DEPS[nm] = frozenset(names_of_any(val))
        if self.positive_leaf(val):
            tm.POS_SYMS.add(nm)
        else:
            tm.POS_SYMS.discard(nm)
        if isinstance(val, Poly):
            return sym(nm, val.is_int())
        return T.base(nm, val.rows, val.cols, val.meta)

    def expand(self, x, keep=()):
        """replace named values by their definitions"""
        for _ in range(60):
            if isinstance(x, (Poly, Bool)):
                use = {a[1] for a in atoms_of(x) if a[0] in ("sym", "el")} & set(self.lets)
            else:
                return T(self.expand(x.rows, keep), self.expand(x.cols, keep),
                         lambda i, j: self.expand(x.at(i, j), keep)) if isinstance(x, T) else x
            use -= set(keep)
            if not use:
                return x
            s = TSub()
            for n in use:
                d = self.lets[n]
                if isinstance(d, Poly):
                    s[("sym", n)] = d
                else:
                    s.tens[n] = lambda *ix, d=d: d.at(ix[0], ix[1] if len(ix) > 1 else ZERO)
            x = subst(x, s) if isinstance(x, Poly) else subst_b(x, s)
        return x

    def note(self, what, node):
        if not self.quiet:
            self.unsupported.append((what, self.prog.loc(node) if isinstance(node, dict) else str(node)))

    def uid(self, p):
        self.cnt += 1
        return "%s~%d" % (p, self.cnt)

    def opq(self, *parts):
        ks = []
        for p in parts:
            if isinstance(p, (Poly, Bool, Opq)):
                ks.append(p.key)
            elif isinstance(p, T):
                try:
                    ks.append(p.key())
                except RecursionError:
                    ks.append("T?")
            elif isinstance(p, str):
                ks.append(p)
            else:
                ks.append(repr(p)[:200])
        return Opq("|".join(ks), parts)

    def scalar(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, (int, float, Fraction)):
            return P(v)
        if isinstance(v, Bool):
            return P(v)
        if isinstance(v, Undef):
            return sym("undef:" + str(v.name))
        if isinstance(v, Opq):
            return fn("opq", StrKey(v.key))
        if isinstance(v, T):
            return v.at(ZERO, ZERO)
        if isinstance(v, LV):
            return self.scalar(v.get(self))
        if isinstance(v, RefV):
            return self.scalar(v.lv.get(self))
        if isinstance(v, StrV):
            return v.num()
        return fn("opq", StrKey(repr(v)[:200]))

    def cond(self, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, Poly):
            return ne(v, 0)
        if isinstance(v, LV):
            return self.cond(v.get(self))
        if isinstance(v, SpIter):
            return bsym("sp-valid")
        if isinstance(v, Opq):
            return pred("opq", StrKey(v.key))
        return pred("opq", StrKey(repr(v)[:200]))

    def tens(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, LV):
            return self.tens(v.get(self))
        if isinstance(v, RefV):
            return self.tens(v.lv.get(self))
        if isinstance(v, (Poly, int)):
            return tconst(1, 1, v)
        if isinstance(v, Undef):
            ty = v.ty or {}
            r, c = ty.get("rows", -1), ty.get("cols", -1)
            nm = "undef:" + str(v.name)
            return T.base(nm, P(r) if r >= 0 else sym(nm + ".rows", True), P(c) if c >= 0 else sym(nm + ".cols", True))
        k = v.key if isinstance(v, Opq) else repr(v)[:120]
        r = tfn("opqT", sym("rows:" + k, True), sym("cols:" + k, True), (StrKey(k),))
        return r

    def getfield(self, v, p):
        if isinstance(v, Rec):
            if p in v.fields:
                return v.fields[p]
            return Undef(name=str(p))
        if isinstance(v, Opt) and p == "*":
            return v.val
        if isinstance(v, Opt) and p == "?":
            return v.has
        if isinstance(v, Seq) and p in ("first", "second"):
            p = 0 if p == "first" else 1
        if isinstance(v, Seq) and isinstance(p, int):
            return v.items[p]
        if isinstance(v, RefV):
            return self.getfield(v.lv.get(self), p)
        if isinstance(v, VecV) and isinstance(p, Poly):
            return v.f(p)
        return self.opq("fld", v, str(p))

    def setfield(self, v, p, val):
        if isinstance(v, Rec):
            return v.set(p, val)
        if isinstance(v, Opt) and p == "*":
            return Opt(v.has, val)
        if isinstance(v, Seq) and p in ("first", "second"):
            p = 0 if p == "first" else 1
        if isinstance(v, Seq) and isinstance(p, int):
            it = list(v.items)
            it[p] = val
            return Seq(it, v.kind)
        if isinstance(v, (Undef, type(None))):
            return Rec(None, {p: val})
        if isinstance(v, RefV):
            lv = v.lv
            lv.set(self, self.setfield(lv.get(self), p, val))
            return v
        if isinstance(v, VecV) and isinstance(p, Poly):
            g = v.f
            return VecV(v.size, lambda i: merge(eq(i, p), val, g(i)))
        return self.opq("set", v, str(p))

    def parse_const(self, c, ty):
        if c in ("inf", "-inf"):
            return INF if c == "inf" else -INF
        if c == "nan":
            return sym("NAN")
        if ty.get("k") == "bool":
            return TRUE if c not in ("0",) else FALSE
        if ty.get("k") == "float":
            f = float(c)
            s = "%.7g" % f if ty.get("bits") == 32 else "%.15g" % f
            return P(Fraction(s))
        return P(int(c))

    # ------------------------------------------------------------------ symbolic inputs
    def symbolic(self, ty, name):
        """symbolic value of C++ type `ty` (a type table entry)"""
        k = ty.get("k")
        ov = self.dims.get(name)
        if callable(ov):
            return ov()
        if k == "bool":
            return bsym(name)
        if k in ("int", "uint", "enum"):
            return sym(name, True)
        if k == "float":
            return sym(name)
        if k == "rec":
            if ty.get("name") in DECOMP:
                return Rec(ty.get("s"), {"mat": Undef(name="mat"), "key": Opq("dec:" + name), "pattern": Opq("pattern:" + name)})
            if "eig" in ty and "rows" in ty:
                r, c = ty["rows"], ty["cols"]
                dr, dc = ov if ov else (None, None)
                rows = P(r) if r >= 0 else (dr if dr is not None else sym(name + ".rows", True))
                cols = P(c) if c >= 0 else (dc if dc is not None else sym(name + ".cols", True))
                if r < 0 and dr is None:
                    tm.SIZE_SYMS.add(name + ".rows")
                if c < 0 and dc is None:
                    tm.SIZE_SYMS.add(name + ".cols")
                meta = {}
                if ty["eig"] == "sparse":
                    meta = {"comp": bsym(name + ".compressed")}
                ta = ty.get("ta") or []
                if ta and "t" in ta[0] and self.prog.types[ta[0]["t"]].get("k") in ("int", "uint"):
                    tm.INT_SYMS.add(name)
                return T.base(name, rows, cols, meta)
            qn = ty.get("qn", "")
            ta = ty.get("ta") or []
            if qn in self.ext:
                return sym(name)
            if qn == "std::optional":
                return Opt(bsym(name + ".has"), self.symbolic(self.prog.types[ta[0]["t"]], name + ".val"))
            if qn == "std::reference_wrapper":
                self.st.roots["&" + name] = self.symbolic(self.prog.types[ta[0]["t"]], name)
                return RefV(LV("&" + name))
            if qn in ("std::chrono::duration", "std::chrono::time_point"):
                return sym(name)
            if qn in ("std::pair", "std::tuple"):
                return Seq([self.symbolic(self.prog.types[a["t"]], "%s.%d" % (name, n)) for n, a in enumerate(ta)], "tuple")
            if qn == "std::array":
                et = self.prog.types[ta[0]["t"]]
                n = ta[1]["v"]
                return Seq([self.symbolic(et, "%s.%d" % (name, i)) for i in range(n)], "array")
            if qn == "std::vector":
                et = self.prog.types[ta[0]["t"]]
                tm.SIZE_SYMS.add(name + ".size")
                return VecV(sym(name + ".size", True), lambda i, et=et: self.vec_elem(et, name, i))
            if qn == "std::shared_ptr" or qn == "std::unique_ptr":
                self.st.roots["&" + name] = self.symbolic(self.prog.types[ta[0]["t"]], name + ".*")
                return RefV(LV("&" + name))
            if qn == "std::function":
                return UserFn(name)
            if qn in STRINGS:
                return sym(name, True)
            rec = self.prog.records.get(ty.get("rec"))
            if rec:
                fields = {}
                for bt in rec.get("bases", []):
                    b = self.symbolic(self.prog.types[bt], name)
                    if isinstance(b, Rec):
                        fields.update(b.fields)
                for f in rec["fields"]:
                    fields[f["name"]] = self.symbolic(self.prog.types[f["t"]], name + "." + f["name"])
                return Rec(ty["s"], fields, rec["id"])
            if "lambda" in ty:
                return UserFn(name)
        if k == "ptr":
            return Opq("ptr:" + name)
        return Opq(name)

    def vec_elem(self, et, name, i):
        k = et.get("k")
        if k in ("int", "uint"):
            tm.INT_SYMS.add(name)
            return el(name, i)
        if k == "float":
            return el(name, i)
        if k == "rec":
            if et.get("qn") in self.ext:
                return el(name, i)
            if et.get("qn") in STRINGS:
                tm.INT_SYMS.add(name)
                return el(name, i)
            rec = self.prog.records.get(et.get("rec"))
            if rec and "eig" not in et:
                return Rec(et["s"], {f["name"]: self.vec_elem(self.prog.types[f["t"]], name + "." + f["name"], i)
                                     for f in rec["fields"]}, rec["id"])
            if et.get("qn") in ("std::pair", "std::tuple"):
                return Seq([self.vec_elem(self.prog.types[a["t"]], "%s.%d" % (name, n), i)
                            for n, a in enumerate(et.get("ta") or [])], "tuple")
            if "eig" in et and "rows" in et:
                return tfn(name, P(et["rows"]) if et["rows"] >= 0 else fn(name + ".rows", i),
                           P(et["cols"]) if et["cols"] >= 0 else fn(name + ".cols", i), (i,))
        return Opq(name + "[" + P(i).key + "]")

    def default(self, ty, name, node=None):
        """value of a default-initialized / value-initialized variable"""
        k = ty.get("k")
        if k == "rec":
            qn = ty.get("qn", "")
            if qn == "std::optional":
                return Opt(FALSE, Undef(name=name))
            if qn == "std::vector":
                return VecV(ZERO, lambda i: Undef(name=name))
            if ty.get("name") in DECOMP:
                return Rec(ty.get("s"), {"mat": Undef(name="mat"), "key": Opq("dec:none"), "pattern": Opq("pattern:none")})
            if "eig" in ty and "rows" in ty:
                r, c = ty["rows"], ty["cols"]
                if r < 0 or c < 0:
                    t = tconst(P(r) if r >= 0 else ZERO, P(c) if c >= 0 else ZERO, ZERO)
                    t.meta = {"comp": TRUE} if ty["eig"] == "sparse" else {}
                    return t
                return Undef(ty, name)
            if qn in ("std::chrono::duration", "std::chrono::time_point"):
                return ZERO
            rec = self.prog.records.get(ty.get("rec"))
            if rec:
                fields = {}
                for bt in rec.get("bases", []):
                    b = self.default(self.prog.types[bt], name)
                    if isinstance(b, Rec):
                        fields.update(b.fields)
                for f in rec["fields"]:
                    ft = self.prog.types[f["t"]]
                    if f.get("init"):
                        fields[f["name"]] = self.init_value(f["init"], ft, name + "." + f["name"])
                    else:
                        fields[f["name"]] = self.default(ft, name + "." + f["name"])
                return Rec(ty["s"], fields, rec["id"])
            if qn in ("std::tuple", "std::pair"):
                return Seq([self.default(self.prog.types[a["t"]], "%s.%d" % (name, n))
                            for n, a in enumerate(ty.get("ta") or [])], "tuple")
            if qn == "std::array":
                et = self.prog.types[ty["ta"][0]["t"]]
                return Seq([self.default(et, "%s.%d" % (name, n)) for n in range(ty["ta"][1]["v"])], "array")
            return Opq("default:" + ty.get("s", "?"))
        return Undef(ty, name)

    def zero(self, ty, name="?"):
        k = ty.get("k")
        if k == "bool":
            return FALSE
        if k in ("int", "uint", "float", "enum"):
            return ZERO
        return self.default(ty, name)

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st is None:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note("stmt " + k, s)
            return
        m(s)

    def s_Block(self, s):
        for x in s["s"]:
            if self.st is None:
                return
            self.exec(x)

    def s_Nop(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s["e"])

    def s_Decl(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        ty = self.prog.ty(d)
        fr = self.frames[-1]
        if d.get("static") and not d.get("constexpr"):
            self.events.append(("static-local", d["name"], self.prog.loc(d)))
        if "ref" in ty and d.get("init") is not None:
            lv = self.lv(d["init"])
            if isinstance(lv, LVTemp):
                root = self.uid(d["name"])
                self.st.roots[root] = lv.val
                lv = LV(root)
            fr.env[d["id"]] = lv
        else:
            view = None
            if d.get("init") is not None and ty.get("k") == "rec" and ty.get("name") in VIEWTYPES and \
                    ty.get("qn", "").startswith("Eigen::"):
                # a view of another object, not a copy
                view = self.lv(d["init"])
                if isinstance(view, LVTemp) and isinstance(view.val, LVView):
                    view = view.val
            if isinstance(view, LVView):
                fr.env[d["id"]] = view
                return
            root = self.uid(d["name"])
            fr.env[d["id"]] = LV(root)
            if view is not None:
                v = self.convert(view.get(self), ty, d["name"], d["init"])
            elif d.get("init") is not None:
                v = self.init_value(d["init"], ty, d["name"])
            else:
                v = self.default(ty, d["name"])
            self.st.roots[root] = v
        if d.get("bindings"):
            base = fr.env[d["id"]]
            for n, b in enumerate(d["bindings"]):
                if b.get("hv") or True:
                    sub = self.tuple_elem_lv(base, n, b)
                    fr.env[b["id"]] = sub
                    if b.get("hv"):
                        fr.env[b["hv"]] = sub

    def tuple_elem_lv(self, base, n, b):
        v = base.get(self)
        if isinstance(v, Seq):
            it = v.items[n]
            if isinstance(it, RefV):
                return it.lv
            return base.sub(n)
        if isinstance(v, Rec):
            names = list(v.fields)
            if n < len(names):
                return base.sub(names[n])
        return LVTemp(self.opq("binding", v, str(n)))

    def init_value(self, e, ty, name):
        v = self.ev(e)
        return self.convert(v, ty, name, e)

    def convert(self, v, ty, name="?", node=None):
        """value v stored into an object of type ty"""
        if isinstance(v, LV):
            v = v.get(self)
        k = ty.get("k")
        if k == "bool":
            return self.cond(v) if not isinstance(v, Undef) else v
        if k in ("float", "int", "uint", "enum"):
            if isinstance(v, Bool):
                return P(v)
            if isinstance(v, T):
                return v.at(ZERO, ZERO)
            if isinstance(v, Seq) and len(v.items) == 1:
                return self.convert(v.items[0], ty, name)
            if isinstance(v, Seq) and not v.items:
                return ZERO
            return v
        if k == "rec":
            qn = ty.get("qn", "")
            if qn == "std::optional" and not isinstance(v, Opt):
                if isinstance(v, Opq) and v.key == "nullopt":
                    return Opt(FALSE, Undef(name=name))
                if isinstance(v, Seq) and not v.items:
                    return Opt(FALSE, Undef(name=name))
                if isinstance(v, Seq) and v.kind == "list" and len(v.items) == 1:
                    v = v.items[0]
                    if isinstance(v, Opt):
                        return v
                return Opt(TRUE, self.convert(v, self.prog.types[ty["ta"][0]["t"]], name))
            if isinstance(v, Seq) and v.kind == "list":
                return self.from_list(v, ty, name, node)
            if "eig" in ty and isinstance(v, (Poly,)):
                return v if False else tconst(1, 1, v)
            if "eig" in ty and isinstance(v, T) and v.meta and ty.get("eig") != "sparse":
                v = T(v.rows, v.cols, v.f, v.name, v.upds, {k: x for k, x in v.meta.items() if k in ("word", "src", "op")})
            if "eig" in ty and ty["eig"] == "sparse" and isinstance(v, T) and "comp" not in v.meta:
                t = T(v.rows, v.cols, v.f, v.name, v.upds, dict(v.meta, comp=TRUE))
                return t
        return v

    def from_list(self, v, ty, name, node):
        rec = self.prog.records.get(ty.get("rec"))
        if rec and "eig" not in ty:
            base = self.default(ty, name)
            if isinstance(base, Rec):
                names = [f["name"] for f in rec["fields"]]
                for n, x in zip(names, v.items):
                    ft = next(f for f in rec["fields"] if f["name"] == n)
                    base = base.set(n, self.convert(x, self.prog.types[ft["t"]], name + "." + n))
                return base
        qn = ty.get("qn", "")
        if qn in ("std::pair", "std::tuple", "std::array"):
            its = v.items
            if qn == "std::array" and len(its) == 1 and isinstance(its[0], Seq):
                its = its[0].items
            if qn == "std::array":
                ets = [self.prog.types[ty["ta"][0]["t"]]] * ty["ta"][1]["v"]
                its = list(its) + [self.zero(ets[0], name)] * (len(ets) - len(its))
            else:
                ets = [self.prog.types[a["t"]] for a in ty["ta"]]
            return Seq([self.convert(x, t, name) for x, t in zip(its, ets)], "tuple")
        if qn == "std::vector":
            its = v.items
            def f(i, its=its):
                c = P(i).const()
                if c is not None and 0 <= c < len(its):
                    return its[int(c)]
                r = its[-1]
                for n in range(len(its) - 2, -1, -1):
                    r = merge(eq(i, n), its[n], r)
                return r
            return VecV(P(len(its)), f)
        if "eig" in ty:
            its = v.items
            if not its:
                return self.default(ty, name)
            if len(its) == 1 and isinstance(its[0], T):
                return its[0]
            return self.eig_ctor(ty, list(its), name, node)
        if not v.items:
            return self.default(ty, name)
        if len(v.items) == 1:
            return self.convert(v.items[0], ty, name)
        return v

    def s_Ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            rt = self.prog.types[fr.fn["ret"]]
            if "ref" in rt:
                v = self.lv(s["e"])
            else:
                v = self.convert(self.ev(s["e"]), rt)
        if self.st is not None:
            fr.exits.append((self.st.pc, v, self.st))
        self.st = None

    def s_Break(self, s):
        fr = self.frames[-1]
        if fr.brk is not None:
            fr.brk.append((self.st.pc, self.st))
        self.st = None

    def s_Continue(self, s):
        fr = self.frames[-1]
        if fr.cont is not None:
            fr.cont.append((self.st.pc, self.st))
        self.st = None

    def s_Case(self, s):
        self.exec(s["s"])

    def s_Default(self, s):
        self.exec(s["s"])

    def s_Switch(self, s):
        """switch as an if-chain over the case groups (with fallthrough)"""
        if s.get("init"):
            self.exec(s["init"])
        v = self.scalar(self.ev(s["c0"]))
        groups = []          # (list of labels or None, stmts)
        body = s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]
        for st in body:
            labels = []
            x = st
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append(("default", None) if x["k"] == "Default" else ("case", x["v"]))
                x = x["s"]
            if labels:
                groups.append((labels, [x] if x else []))
            elif groups:
                groups[-1][1].append(st)
        fr = self.frames[-1]
        ob, fr.brk = fr.brk, []
        allcases = []
        conds = []
        for labels, _ in groups:
            cs = []
            isdef = False
            for kind, node in labels:
                if kind == "default":
                    isdef = True
                else:
                    cs.append(eq(v, self.scalar(self.ev(node))))
            allcases += cs
            conds.append([or_(*cs) if cs else FALSE, isdef])
        for c in conds:
            if c[1]:
                c[0] = or_(c[0], not_(or_(*allcases)) if allcases else TRUE)
        outs = []
        entry = self.st
        cur = None
        for (c, _), (labels, stmts) in zip(conds, groups):
            st0 = entry.copy()
            pc0 = st0.pc
            st0.pc = and_(pc0, c)
            if cur is not None:
                # fallthrough from the previous group
                m = self.merge_states(c, st0, cur)
                m.pc = or_(st0.pc, cur.pc)
                self.st = m
            else:
                self.st = st0 if not c.is_false() else None
            for x in stmts:
                self.exec(x)
            cur = self.st
        res = []
        if cur is not None:
            res.append((cur.pc, cur))
        none = not_(or_(*[c for c, _ in conds])) if conds else TRUE
        if not none.is_false():
            st0 = entry.copy()
            st0.pc = and_(st0.pc, none)
            res.append((st0.pc, st0))
        res = fr.brk + res
        fr.brk = ob
        self.st = self.join(res, entry.pc)

    def join(self, alts, pc):
        """alternatives [(pc, state)] -> one state"""
        if not alts:
            return None
        out = alts[-1][1].copy()
        for c, st in reversed(alts[:-1]):
            out = self.merge_states(c, st, out)
        out.pc = pc if len(alts) > 1 else alts[0][0]
        return out

    def merge_states(self, c, a, b):
        roots = {}
        for r in a.roots:
            x = a.roots[r]
            if r in b.roots:
                y = b.roots[r]
                roots[r] = x if x is y else merge(c, x, y)
            else:
                roots[r] = x
        for r in b.roots:
            if r not in roots:
                roots[r] = b.roots[r]
        return State(roots, a.pc)

    def s_If(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        c = self.cond(self.ev(s["c0"]))
        if c.is_true():
            self.exec(s["a"])
            return
        if c.is_false():
            if s.get("b"):
                self.exec(s["b"])
            return
        st0 = self.st
        pc0 = st0.pc
        sa = st0.copy()
        sa.pc = and_(pc0, c)
        sb = st0.copy()
        sb.pc = and_(pc0, not_(c))
        pa, pb = sa.pc, sb.pc
        self.st = sa
        self.exec(s["a"])
        ra = self.st
        self.st = sb
        if s.get("b"):
            self.exec(s["b"])
        rb = self.st
        if ra is None and rb is None:
            self.st = None
        elif ra is None:
            self.st = rb
        elif rb is None:
            self.st = ra
        else:
            m = self.merge_states(c, ra, rb)
            if ra.pc == pa and rb.pc == pb:
                m.pc = pc0
            else:
                m.pc = or_(ra.pc, rb.pc)
            self.st = m

    def s_Try(self, s):
        self.exec(s["body"])

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        if s.get("init"):
            self.exec(s["init"])
        self.loop(s, s.get("c0"), s["body"], s.get("inc"), s.get("cv"))

    def s_While(self, s):
        self.loop(s, s["c0"], s["body"], None, s.get("cv"))

    def s_Do(self, s):
        self.loop(s, s["c0"], s["body"], None, None, post=True)

    def s_Range(self, s):
        if s.get("init"):
            self.exec(s["init"])
        rlv = self.lv(s["range"])
        rv = rlv.get(self)
        if isinstance(rv, RefV):
            rlv, rv = rv.lv, rv.lv.get(self)
        var = s["var"]
        fr = self.frames[-1]
        if isinstance(rv, Seq):
            # known length: unroll
            for n, it in enumerate(rv.items):
                if self.st is None:
                    return
                self.bind_loopvar(var, it.lv if isinstance(it, RefV) else (rlv.sub(n) if not isinstance(rlv, LVTemp) else LVTemp(it)))
                self.exec_body_once(s["body"])
            return
        if isinstance(rv, VecV):
            size, get = rv.size, rv.f
            elemlv = lambda i: (rlv.sub(i) if not isinstance(rlv, LVTemp) else LVTemp(get(i)))
        elif isinstance(rv, (T, Undef)):
            t = self.tens(rv)
            size = t.rows if t.cols == ONE else t.cols
            elemlv = (lambda i: LVElem(rlv, i, ZERO)) if t.cols == ONE else (lambda i: LVElem(rlv, ZERO, i))
        elif isinstance(rv, ZipV):
            size = rv.size
            elemlv = lambda i: LVTemp(rv.elem(self, i))
        else:
            self.note("range over %r" % (rv,), s)
            size = sym(self.uid("range.size"), True)
            elemlv = lambda i: LVTemp(self.opq("relem", rv, i))
        self.range_loop(s, size, lambda i: self.bind_loopvar(var, elemlv(i)), s["body"])

    def exec_body_once(self, body):
        fr = self.frames[-1]
        pc0 = self.st.pc
        oc, fr.cont = fr.cont, []
        self.exec(body)
        alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
        fr.cont = oc
        self.st = self.join(alts, pc0)

    def bind_loopvar(self, var, lv):
        fr = self.frames[-1]
        ty = self.prog.ty(var)
        if "ref" in ty:
            if isinstance(lv, LVTemp):
                root = self.uid(var["name"])
                self.st.roots[root] = lv.val
                lv = LV(root)
            fr.env[var["id"]] = lv
        else:
            root = self.uid(var["name"])
            self.st.roots[root] = lv.get(self)
            fr.env[var["id"]] = LV(root)
        if var.get("bindings"):
            base = fr.env[var["id"]]
            for n, b in enumerate(var["bindings"]):
                sub = self.tuple_elem_lv(base, n, b)
                fr.env[b["id"]] = sub
                if b.get("hv"):
                    fr.env[b["hv"]] = sub

    def range_loop(self, s, size, bind, body):
        """for t in [0,size): bind(t); body"""
        c = size.const()
        if c is not None and c <= 4 and c == int(c):
            for n in range(int(c)):
                if self.st is None:
                    return
                bind(P(n))
                self.exec_body_once(body)
            return
        t = fresh("t")
        tm.RANGES[t] = (ZERO, size)
        fr = self.frames[-1]
        def step():
            bind(bv(t))
            oc, fr.cont = fr.cont, []
            self.exec(body)
            alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
            fr.cont = oc
            self.st = self.join(alts, TRUE)
        self.summarize(s, t, size, step, {}, set())

    # location enumeration -------------------------------------------------------------
    def leaves_of(self, st):
        out = {}
        def rec(key, v):
            if isinstance(v, Rec):
                for f, x in v.fields.items():
                    rec(key + (f,), x)
            elif isinstance(v, Opt):
                rec(key + ("?",), v.has)
                rec(key + ("*",), v.val)
            elif isinstance(v, Seq):
                for n, x in enumerate(v.items):
                    rec(key + (n,), x)
            else:
                out[key] = v
        for r, v in st.roots.items():
            rec((r,), v)
        return out

    def put_leaf(self, st, key, val):
        def rec(v, path):
            if not path:
                return val
            p = path[0]
            if isinstance(v, Rec):
                return v.set(p, rec(v.fields.get(p), path[1:]))
            if isinstance(v, Opt):
                if p == "?":
                    return Opt(val, v.val)
                return Opt(v.has, rec(v.val, path[1:]))
            if isinstance(v, Seq):
                it = list(v.items)
                it[p] = rec(it[p], path[1:])
                return Seq(it, v.kind)
            if isinstance(v, (Undef, type(None))) and p in ("?", "*"):
                o = Opt(FALSE, Undef())
                return Opt(val, o.val) if p == "?" else Opt(o.has, rec(o.val, path[1:]))
            if isinstance(v, (Undef, type(None))):
                return Rec(None, {p: rec(None, path[1:])})
            return v
        st.roots[key[0]] = rec(st.roots.get(key[0]), key[1:])

    def changed(self, a, b):
        """leaf keys of roots present in a whose value differs in b"""
        out = {}
        la = None
        for r, x in a.roots.items():
            y = b.roots.get(r)
            if x is y or y is None:
                continue
            sa, sb = State({r: x}, TRUE), State({r: y}, TRUE)
            la, lb = self.leaves_of(sa), self.leaves_of(sb)
            for k in set(la) | set(lb):
                if k in la and k in lb:
                    if not val_equal(la[k], lb[k]):
                        out[k] = (la[k], lb[k])
                else:
                    # structure changed (e.g. undef -> record / optional payload appears)
                    out[k] = (la.get(k), lb.get(k))
        return out

    def unknown_like(self, v, name):
        """an unknown value of the shape of v"""
        if isinstance(v, Rec):
            return Rec(v.ty, {k: self.unknown_like(x, name + "." + str(k)) for k, x in v.fields.items()}, v.rec)
        if isinstance(v, Seq):
            return Seq([self.unknown_like(x, "%s.%d" % (name, n)) for n, x in enumerate(v.items)], v.kind)
        if isinstance(v, Opt):
            return Opt(bsym(name + ".has"), self.unknown_like(v.val, name + ".val"))
        if isinstance(v, Undef):
            return Opq(name)
        return self.havoc_val(v, name)

    def havoc_val(self, v, name, other=None):
        if isinstance(v, (Undef, type(None))) and other is not None and not isinstance(other, Undef):
            v = other
        if isinstance(v, Poly):
            return sym(name, v.is_int())
        if isinstance(v, Bool):
            return bsym(name)
        if isinstance(v, T):
            meta = {k: (bsym(name + "." + k) if isinstance(x, Bool) else x) for k, x in v.meta.items()}
            i = v.gen()
            if i.is_int() and i != ZERO:
                tm.INT_SYMS.add(name)
            return T.base(name, v.rows, v.cols, meta)
        if isinstance(v, Undef):
            ty = v.ty or {}
            if ty.get("k") == "bool":
                return bsym(name)
            if ty.get("k") in ("int", "uint", "enum"):
                return sym(name, True)
            if ty.get("k") == "float":
                return sym(name)
            return v
        if isinstance(v, VecV):
            tm.SIZE_SYMS.add(name + ".size")
            g = v.f
            return VecV(sym(name + ".size", True), lambda i: self.havoc_elem(g(i), name, i))
        if isinstance(v, (SpIter, Closure, RefV, UserFn, FuncV, StrV)):
            return v
        if isinstance(v, Opq):
            return Opq(name)
        return Opq(name)

    def havoc_elem(self, v, name, i):
        if isinstance(v, Poly):
            return el(name, i)
        if isinstance(v, T):
            return tfn(name, v.rows, v.cols, (P(i),))
        if isinstance(v, Rec):
            return Rec(v.ty, {k: self.havoc_elem(x, name + "." + k, i) for k, x in v.fields.items()}, v.rec)
        if isinstance(v, Seq):
            return Seq([self.havoc_elem(x, "%s.%d" % (name, n), i) for n, x in enumerate(v.items)], v.kind)
        return Opq("%s[%s]" % (name, P(i).key))

    def keyname(self, k):
        return ".".join(str(x) if not str(x).find("~") > 0 else str(x).split("~")[0] for x in k)

    def loop(self, s, cond, body, inc, cv, post=False):
        """generic loop: discover induction variables and trip count, summarise"""
        fr = self.frames[-1]
        st0 = self.st
        cnt0 = self.cnt
        lid = "L%s" % (s.get("l"),)
        lid = self.loop_id(lid)

        def run_iter(check=True):
            """one iteration from self.st ; returns (cond Bool or SpIter cond, breaks)"""
            oc, fr.cont = fr.cont, []
            ob, fr.brk = fr.brk, []
            c = TRUE
            if cv:
                self.declare(cv)
            if cond is not None and not post:
                cval = self.ev(cond)
                c = self.cond(cval.get(self) if isinstance(cval, LV) else cval)
            entry = self.st.copy()
            self.st.pc = TRUE
            self.exec(body)
            alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
            self.st = self.join(alts, TRUE)
            if self.st is not None and inc is not None:
                self.ev(inc)
            if post and self.st is not None:
                cval = self.ev(cond)
                c = self.cond(cval.get(self) if isinstance(cval, LV) else cval)
            brk = fr.brk
            fr.cont, fr.brk = oc, ob
            return c, brk, entry

        # --- sparse iterator loop?
        sp = self.find_spiter(cond) if cond is not None and not post else None
        if sp is not None:
            lvk, it = sp
            if it.pos is None:
                t = fresh("t")
                M = self.tens(it.M.get(self)) if isinstance(it.M, LV) else it.M
                size = M.cols if it.rm else M.rows
                tm.RANGES[t] = (ZERO, size)
                pos = bv(t)
                it2 = SpIter(it.lv, it.M, it.k, pos, it.rm)
                r, c = it2.rc()
                atom = self.nz_guard(M, r, c, it)

                def step():
                    oc, fr.cont = fr.cont, []
                    self.exec(body)
                    alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
                    fr.cont = oc
                    self.st = self.join(alts, TRUE)

                def bind():
                    lvk.set(self, it2)
                self.quiet_inc = True
                # the increment only advances the iterator
                st_keep = self.st
                lvk.set(self, it2)
                self.summarize(s, t, size, step, {}, {lvk.root}, guard=atom)
                return

        # --- counting loop?  discover changed set
        self.quiet += 1
        ev0, lp0, un0 = len(self.events), len(self.loops), len(self.unsupported)
        nex = len(fr.exits)
        heads = {}
        chg = {}
        kept = set()
        for rnd in range(8):
            self.cnt = cnt0
            self.st = st0.copy()
            for k, (v, o) in chg.items():
                heads[k] = self.havoc_val(v, "%s.%s" % (lid, self.keyname(k)), o)
                if k in kept:
                    heads[k] = VecV(v.size, heads[k].f)
                self.put_leaf(self.st, k, heads[k])
            base = self.st.copy()
            c, brk, entry = run_iter()
            new = {}
            for end in ([self.st] if self.st else []) + [b for _, b in brk]:
                new.update(self.changed(base, end))
            grow = False
            for k, (v, o) in new.items():
                if k not in chg:
                    orig = self.leaves_of(State({k[0]: st0.roots.get(k[0])}, TRUE)).get(k) if k[0] in st0.roots else None
                    chg[k] = (orig if orig is not None else v, o)
                    grow = True
            del self.events[ev0:], self.loops[lp0:], self.unsupported[un0:]
            del fr.exits[nex:]
            if not grow and not self.keep_sizes(kept, heads, chg, ([self.st] if self.st else []) + [b for _, b in brk]):
                break
        self.quiet -= 1

        # induction variables
        ind = {}
        if self.st is not None:
            lend = self.leaves_of(self.st)
            for k, h in heads.items():
                if isinstance(h, Poly) and k in lend and isinstance(lend[k], Poly):
                    d = lend[k] - h
                    cc = d.const()
                    if cc is not None and cc != 0 and k in chg:
                        init = chg[k][0]
                        if isinstance(init, Poly):
                            ind[k] = (init, d)
        trip = None
        iv = None
        if not post and isinstance(c, Bool) and not brk_affects_trip(brk):
            for k, (init, d) in ind.items():
                trip = self.trip_count(c, heads[k], init, d)
                if trip is not None:
                    iv = k
                    break
        if trip is not None:
            # a condition that changes something: also evaluated when it ends the loop
            effects = not post and bool(self.changed(base, entry))

            def test():
                if effects and self.st is not None:
                    self.ev(cond)
            tc = trip.const()
            self.cnt = cnt0
            self.st = st0
            if tc is not None and tc <= 0:
                test()
                return
            t = fresh("t")
            tm.RANGES[t] = (ZERO, trip)
            indvals = {k: init + d * bv(t) for k, (init, d) in ind.items()}
            if tc is not None and tc <= self.unroll:
                # tiny constant loop: unroll
                for n in range(int(tc)):
                    if self.st is None:
                        return
                    # the condition is known to hold
                    oc, fr.cont = fr.cont, []
                    ob, fr.brk = fr.brk, []
                    test()
                    self.exec(body)
                    alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
                    brk = fr.brk
                    fr.cont, fr.brk = oc, ob
                    if brk:
                        break
                    self.st = self.join(alts, alts[0][0] if alts else TRUE)
                    if self.st is not None and inc is not None:
                        self.ev(inc)
                else:
                    test()
                    return
                # breaks inside an unrolled loop: fall back to the general summary
                self.st = st0
                self.cnt = cnt0

            def step():
                oc, fr.cont = fr.cont, []
                test()
                self.exec(body)
                alts = fr.cont + ([(self.st.pc, self.st)] if self.st else [])
                fr.cont = oc
                self.st = self.join(alts, TRUE)
                if self.st is not None and inc is not None:
                    self.ev(inc)
            finals = {k: init + d * trip for k, (init, d) in ind.items()}
            extra = self.extra_cond(c, heads, iv)
            self.summarize(s, t, trip, step, indvals, set(), finals=finals, heads0=heads, stopcond=extra)
            test()
            return

        # --- general loop: transfer summary
        self.cnt = cnt0
        self.st = st0.copy()
        for k, h in heads.items():
            self.put_leaf(self.st, k, h)
        base = self.st.copy()
        evs = len(self.events)
        self.quiet += 1

        def once():
            self.cnt = cnt0
            self.st = base.copy()
            a0, b0, c0, d0 = len(self.events), len(self.loops), len(self.unsupported), len(fr.exits)
            c_, brk_, _ = run_iter()
            del self.events[a0:], self.loops[b0:], self.unsupported[c0:], fr.exits[d0:]
            return [self.leaves_of(x) for x in ([self.st] if self.st else []) + [b for _, b in brk_]]
        pos = self.induct_positive(heads, chg, once) if any(self.positive_leaf(v) for v, o in chg.values()) else set()
        self.quiet -= 1
        self.cnt = cnt0
        self.st = base.copy()
        c, brk, entry = run_iter()
        end = self.st
        if not post and isinstance(c, Bool):
            # a break before anything is modified is part of the loop condition
            keep = []
            for bc, bs in brk:
                if not self.changed(base, bs):
                    c = and_(c, not_(bc))
                else:
                    keep.append((bc, bs))
            brk = keep
        rec = LoopRec(positive=pos, node=s, line=s.get("l"), file=s.get("f"), id=lid, cond=c, post=post,
                      fn=fr.fn["full"], fname=fr.fn["name"], heads=dict(heads),
                      init={k: v for k, (v, o) in chg.items()}, breaks=brk, exits=fr.exits[nex:],
                      end=self.leaves_of(end) if end is not None else None, pre=st0, base=base, endstate=end,
                      events=self.events[evs:], induction=ind, pc=st0.pc)
        self.loops.append(rec)
        # state after the loop: the head state with the condition false (or a break state / for a
        # post-test loop: the end state)
        if post:
            after = end.copy() if end is not None else None
            if after is not None:
                rec.outs = {}
                for k, h in heads.items():
                    cur = rec.end.get(k)
                    if cur is None or not isinstance(cur, (Poly, T, Bool)) or val_equal(cur, h):
                        continue
                    o = self.havoc_val(cur, "%s.out.%s" % (lid, self.keyname(k)), chg[k][1])
                    rec.outs[k] = o
                    if self.positive_leaf(cur):
                        tm.POS_SYMS.add(self.leaf_name(o))
                    self.put_leaf(after, k, o)
        else:
            after = base.copy()
        if brk and after is not None:
            for bc, bs in brk:
                x = self.havoc_after(after, base, bs, lid)
                after = x
        if after is not None:
            after.pc = st0.pc
        self.st = after

    def leaf_name(self, h):
        if isinstance(h, T):
            return h.name
        if isinstance(h, Poly) and len(h.terms) == 1:
            (hk, _), = h.terms.items()
            if len(hk[1]) == 1 and hk[1][0][0][0] == "sym":
                return hk[1][0][0][1]
        return None

    def positive_leaf(self, v):
        if isinstance(v, T):
            return tm.positive(v.gen())
        return isinstance(v, Poly) and tm.positive(v)

    def induct_positive(self, heads, chg, run):
        """head locations that are positive initially and stay positive: recorded in POS_SYMS.
        run() executes one iteration from the head state and returns the end leaves"""
        cand = {k for k, h in heads.items() if self.leaf_name(h) and self.positive_leaf(chg[k][0])}
        while cand:
            for k in cand:
                tm.POS_SYMS.add(self.leaf_name(heads[k]))
            ends = run()
            bad = {k for k in cand if not all(self.positive_leaf(e.get(k)) for e in ends)}
            if not bad:
                return cand
            for k in cand:
                tm.POS_SYMS.discard(self.leaf_name(heads[k]))
            cand -= bad
        return cand

    def havoc_after(self, a, base, b, lid):
        ch = self.changed(base, b)
        out = a.copy()
        for k, (v, o) in ch.items():
            la = self.leaves_of(State({k[0]: out.roots[k[0]]}, TRUE)).get(k)
            out2 = merge(bsym(lid + ".broke"), o, la) if la is not None else o
            self.put_leaf(out, k, out2)
        return out

    def loop_id(self, lid):
        n = 0
        while any(l.id == lid + ("" if not n else "'%d" % n) for l in self.loops):
            n += 1
        return lid + ("" if not n else "'%d" % n)

    def extra_cond(self, c, heads, iv):
        """conjuncts of the loop condition that are not the counter bound: early stop conditions"""
        if c.kind != "and":
            return TRUE
        h = heads[iv]
        hs = atoms_of(h)
        rest = []
        for x in c.a:
            d = atoms_of(x)
            if hs & d:
                continue
            rest.append(x)
        return and_(*rest) if rest else TRUE

    def trip_count(self, c, h, init, d):
        """number of iterations for condition c on the induction variable h = init + d*t"""
        if c.kind == "and":
            for x in c.a:
                r = self.trip_count(x, h, init, d)
                if r is not None:
                    return r
            return None
        step = d.const()
        (hk, _), = h.terms.items()
        hatom = hk[1][0][0]

        def aff(p):
            a = Fraction(0)
            rest = {}
            for (b, f), cc in p.terms.items():
                if b == () and f == ((hatom, 1),):
                    a += cc
                elif any(hatom in atoms_of(from_atom(x)) for x, e in f):
                    return None
                else:
                    rest[(b, f)] = cc
            return a, Poly(rest)
        neg = False
        x = c
        if x.kind == "not":
            neg, x = True, x.a
        if x.kind == "ge":
            af = aff(x.a)
            if not af or af[0] == 0:
                # disequality  h != hi  ==  !(ge && ge)
                return None
            a, r = af
            if any(bs in self.headatoms for bs in ()):
                return None
            # holds while  a*h + r >= 0   (or not)
            if neg:
                # a*h + r <= -1  <=>  -a*h - r - 1 >= 0
                a, r = -a, -r - 1
            if a * step >= 0:
                return None
            # a*h + r >= 0, h = init + step*t  -> t <= (a*init + r)/(-a*step)
            den = -a * step
            num = a * init + r
            if not num.is_int():
                return None
            if den == 1:
                return num + 1
            cnum = num.const()
            if cnum is not None:
                return P(int(cnum // den) + 1) if cnum >= 0 else ZERO
            return fn("idiv", num, P(den)) + 1
        if x.kind in ("or",) and not neg:
            # h != hi  is  (h-hi-1>=0) or !(h-hi>=0)
            parts = list(x.a)
            if len(parts) == 2:
                for p, q in (parts, parts[::-1]):
                    if p.kind == "ge" and q.kind == "not" and q.a.kind == "ge":
                        d1 = q.a.a      # q: !(d1>=0) : d1 <= -1
                        if p.a == d1 - 1:
                            af = aff(d1)
                            if af and abs(af[0]) == 1 and abs(step) == 1:
                                a, r = af
                                # stop when a*h + r == 0 -> h = -r/a
                                target = -r * a
                                n = (target - init) * step
                                return n
                        if d1 == -p.a - 1 - 0 and False:
                            return None
        return None

    headatoms = ()

    def find_spiter(self, cond):
        """loop condition is the validity test of an InnerIterator variable"""
        e = cond
        if e["k"] == "MCall" and e.get("conv") and e.get("o"):
            e = e["o"]
        elif e["k"] == "Cast":
            e = e["e"]
            if e["k"] == "MCall" and e.get("conv"):
                e = e["o"]
        if e["k"] == "Ref":
            lv = self.frames[-1].env.get(e["id"])
            if isinstance(lv, LV):
                v = lv.get(self)
                if isinstance(v, SpIter):
                    return lv, v
        return None

    def nz_guard(self, M, r, c, it):
        if not getattr(it, "sparse", True):
            return TRUE
        if "pat" in M.meta:
            return stored(M.meta["pat"], r, c)
        x = M.at(r, c)
        if M.name is not None and not M.upds and len(x.terms) == 1:
            ((b, f), cc), = x.terms.items()
            if not b and len(f) == 1 and f[0][0][0] == "el":
                return nz(f[0][0])
        ats = [a for a in atoms_of(x) if a[0] in ("el", "fn")]
        return pred("nzval", x)

    def summarize(self, *a, **kw):
        self.sumdepth += 1
        try:
            self.summarize0(*a, **kw)
        finally:
            self.sumdepth -= 1
        if self.let_root is not None and not self.sumdepth and self.st is not None and self.let_root in self.st.roots:
            for k in self.loops[-1].heads:
                if k[0] == self.let_root:
                    v = self.st.roots[k[0]]
                    for p in k[1:]:
                        v = self.getfield(v, p)
                    if isinstance(v, T) and v.upds:
                        v = T(v.rows, v.cols, v.at, None, (), v.meta)
                    w = self.let_bind(k[1:], v)
                    if w is not v and isinstance(w, T):
                        self.put_leaf(self.st, k, w)
                elif len(k) == 1 and k[0] in self.st.roots:
                    # local vectors filled by conditional scatter (index lists)
                    v = self.st.roots[k[0]]
                    if isinstance(v, T) and v.cols == ONE and v.upds and \
                            any(a[0] == "fn" and a[1] == "lastw" for a in atoms_of(v.gen())):
                        w = self.let_bind(k, T(v.rows, v.cols, v.at, None, (), v.meta))
                        if w.name:
                            if all(u.val.is_int() for u in v.upds):
                                tm.INT_SYMS.add(w.name)
                            self.scatters[w.name] = (k[0], v)
                            self.put_leaf(self.st, k, w)

    def keep_sizes(self, kept, heads, chg, ends):
        """the vectors whose size no iteration changes keep the size they had; true when there are new ones"""
        ls = [self.leaves_of(e) for e in ends]
        new = False
        for k, h in heads.items():
            if k in kept or not isinstance(h, VecV) or not isinstance(chg[k][0], VecV):
                continue
            if h.size != chg[k][0].size and all(isinstance(l.get(k), VecV) and l[k].size == h.size for l in ls):
                kept.add(k)
                new = True
        return new

    def summarize0(self, s, t, size, step, indvals, skip_roots, guard=TRUE, finals=None, heads0=None, stopcond=TRUE):
        """closed form of: for t in [0,size): step()   (guard: iterations that actually happen)"""
        fr = self.frames[-1]
        st0 = self.st
        cnt0 = self.cnt
        lid = self.loop_id("L%s" % s.get("l"))
        chg = {}
        heads = {}
        kept = set()
        ev0, lp0, un0 = len(self.events), len(self.loops), len(self.unsupported)
        nex = len(fr.exits)
        for rnd in range(10):
            self.cnt = cnt0
            self.st = st0.copy()
            self.st.pc = TRUE
            heads = {}
            for k, (v, o) in chg.items():
                if k in indvals:
                    self.put_leaf(self.st, k, indvals[k])
                    continue
                heads[k] = self.havoc_val(v, "%s.%s" % (lid, self.keyname(k)), o)
                if k in kept:
                    heads[k] = VecV(v.size, heads[k].f)
                self.put_leaf(self.st, k, heads[k])
            for k, v in indvals.items():
                self.put_leaf(self.st, k, v)
            base = self.st.copy()
            del self.events[ev0:], self.loops[lp0:], self.unsupported[un0:]
            del fr.exits[nex:]
            ob, fr.brk = fr.brk, []
            step()
            brk = fr.brk
            fr.brk = ob
            new = self.changed(base, self.st) if self.st else {}
            grow = False
            for k, (v, o) in new.items():
                if k in chg or k in indvals or k[0] in skip_roots:
                    continue
                if k[0] not in st0.roots:
                    continue
                orig = self.leaves_of(State({k[0]: st0.roots[k[0]]}, TRUE)).get(k)
                chg[k] = (orig if orig is not None else v, o)
                grow = True
            if not grow and not self.keep_sizes(kept, heads, chg, ([self.st] if self.st else []) + [b for _, b in brk] + [es for _, _, es in fr.exits[nex:]]):
                break
        # what only the last iteration changes (the one that leaves the loop)
        last = {}
        for es in [b for _, b in brk] + [b for _, _, b in fr.exits[nex:]]:
            for k, (v, o) in self.changed(base, es).items():
                if k in chg or k in indvals or k[0] in skip_roots or k[0] not in st0.roots:
                    continue
                orig = self.leaves_of(State({k[0]: st0.roots[k[0]]}, TRUE)).get(k)
                last[k] = (orig if orig is not None else v, o)
        end = self.st
        exits = fr.exits[nex:]
        del fr.exits[nex:]
        out = st0.copy()
        hatoms = {}
        for k, h in heads.items():
            hatoms[k] = self.head_names(h)
        allheads = set().union(*hatoms.values()) if hatoms else set()
        hi_bound = size

        # early termination by break / early stop conditions
        broke = FALSE
        stops = [bc for bc, _ in brk] + [c for c, _, _ in exits]
        okbrk = not any(names_of_any(c) & allheads for c in stops)
        left = FALSE
        at_first = None
        if stops and okbrk:
            anys = and_(guard, or_(*stops))
            if brk:
                broke = exists_f(t, ZERO, size, and_(guard, or_(*[bc for bc, _ in brk])))
            left = exists_f(t, ZERO, size, anys)
            at_first = {("bv", t): first_pos(t, size, anys)}
            if brk and exits:
                broke = and_(left, subst_b(or_(*[bc for bc, _ in brk]), at_first))
        lend = self.leaves_of(end) if end is not None else {}
        lendb = [(bc, self.leaves_of(bs)) for bc, bs in brk]

        sub_last = {("bv", t): size - 1}
        for k, (orig, o) in chg.items():
            h = heads.get(k)
            new = lend.get(k, h)
            if new is None:
                continue
            res = self.close(k, h, new, orig, t, size, guard, allheads, heads, chg, lend, hatoms)
            if brk:
                if okbrk:
                    bv_ = None
                    bad = False
                    for bc, bl in lendb:
                        x = bl.get(k)
                        if x is None or (isinstance(x, (Poly, Bool)) and val_equal(x, h)):
                            # unchanged by the breaking iteration
                            x = None
                        if x is None:
                            bad = True
                        elif names_of_any(x) & (allheads | set()) or t in free_any(x):
                            bad = True
                        elif bv_ is not None and not val_equal(bv_, x):
                            bad = True
                        else:
                            bv_ = x
                    if bad or bv_ is None:
                        res = self.havoc_val(orig, self.uid("brk.%s.%s" % (lid, self.keyname(k))), o) if not broke.is_false() else res
                    else:
                        res = merge(broke, bv_, res)
                else:
                    res = self.havoc_val(orig, self.uid("brk.%s.%s" % (lid, self.keyname(k))), o)
            self.put_leaf(out, k, res)

        def leaving(k, alts, orig, o):
            """value of a location only changed by the iteration that leaves the loop"""
            res = orig
            for c, es in reversed(alts):
                x = self.leaves_of(es).get(k)
                if not okbrk or x is None or (names_of_any(x) & allheads) or (t in free_any(x) and not isinstance(x, (Poly, Bool, T))):
                    return self.havoc_val(orig, self.uid("brk.%s.%s" % (lid, self.keyname(k))), o)
                x = subst_val(x, at_first)
                res = x if res is orig and len(alts) == 1 else merge(subst_b(c, at_first), x, res)
            return res
        for k, (orig, o) in last.items():
            if brk:
                x = leaving(k, brk, orig, o)
                self.put_leaf(out, k, merge(broke, x, orig) if okbrk else x)
        if stopcond is not TRUE and not stopcond.is_true():
            self.apply_stop(out, st0, stopcond, heads, chg, lend, t, size, guard, lid, allheads, hatoms)
        for k, v in (finals or {}).items():
            if k[0] in out.roots:
                if brk or not stopcond.is_true():
                    self.put_leaf(out, k, sym(self.uid("brk." + self.keyname(k)), True))
                else:
                    self.put_leaf(out, k, v)
        # returns from inside the loop
        gone = []
        for pc, v, es in exits:
            c = and_(guard, pc)
            if not okbrk:
                cc = bsym(self.uid("loopret"))
            elif len(stops) == 1:
                cc = left
            else:
                cc = and_(left, subst_b(pc, at_first))
            gone.append(cc)
            fx = free_any(v) if isinstance(v, (Poly, Bool, T)) else (free_any(v.val) if isinstance(v, Opt) and isinstance(v.val, (Poly, Bool, T)) else frozenset())
            if v is None:
                vv = None
            elif names_of_any(v) & allheads or (t in fx and not okbrk):
                vv = self.opq("loopret", str(self.uid("r")))
            elif t in fx:
                vv = subst_val(v, at_first)
            elif isinstance(v, (Poly, Bool, Opt)):
                vv = v
            else:
                vv = self.opq("loopret", str(self.uid("r")))
            es2 = out.copy()
            for k, (orig, o) in last.items():
                self.put_leaf(es2, k, leaving(k, [(pc, es)], orig, o))
            for k, (orig, o) in chg.items():
                # the iterations before the last one are not summarized separately
                self.put_leaf(es2, k, self.havoc_val(orig, self.uid("ret.%s.%s" % (lid, self.keyname(k))), o))
            fr.exits.append((and_(st0.pc, cc), vv, es2))
        if gone:
            out.pc = and_(st0.pc, not_(or_(*gone)))
        if not exits:
            out.pc = st0.pc
        self.st = out
        self.loops.append(LoopRec(node=s, line=s.get("l"), file=s.get("f"), id=lid + "#c", cond=None, post=False,
                                  fn=fr.fn["full"], fname=fr.fn["name"], heads=heads, init={k: v for k, (v, o) in chg.items()},
                                  breaks=brk, exits=exits, end=lend, trip=size, closed=True, events=[], induction={}, pc=st0.pc,
                                  iv=t, after=self.leaves_of(out), inner=self.events[ev0:], indvals=dict(indvals)))
        if self.after_loop is not None:
            self.after_loop(self, self.loops[-1])

    def apply_stop(self, out, st0, stop, heads, chg, lend, t, size, guard, lid, allheads, hatoms):
        """for (...; i < n && flag; ...): the extra conjunct only reads boolean flags that the body
        can falsify but never re-validate -> the flag's final value is unaffected; other writes are
        havocked"""
        flags = {a[1] for a in atoms_of(stop) if a[0] == "bsym"}
        flag_keys = [k for k, h in heads.items() if isinstance(h, Bool) and h.kind == "bsym" and h.a in flags]
        ok = set(flag_keys)
        for k in chg:
            if k in ok:
                new, h = lend.get(k), heads[k]
                # monotone: new = h and X
                if isinstance(new, Bool) and (implies_syntactic(new, h)
                                              or subst_b(new, TSub(bools={h.a: FALSE})).is_false()):
                    continue
            orig, o = chg[k]
            if val_equal(lend.get(k), heads.get(k)):
                continue
            self.put_leaf(out, k, self.havoc_val(orig, self.uid("stop.%s.%s" % (lid, self.keyname(k))), o))

    def head_names(self, h):
        if isinstance(h, Poly):
            return names_of(h)
        if isinstance(h, Bool):
            return names_of(h)
        if isinstance(h, T):
            return {h.name}
        if isinstance(h, Opq):
            return {h.key}
        return set()

    def close(self, k, h, new, orig, t, size, guard, allheads, heads, chg, lend, hatoms):
        """value of location k after all iterations"""
        if isinstance(orig, (Undef, type(None))):
            orig = h
        if isinstance(new, Undef) or val_equal(new, h):
            return orig
        mine = hatoms.get(k, set())
        others = allheads - mine

        def resolve_others(x):
            """other locations written in this loop, read at the head: only their closed-form prefix"""
            d = names_of_any(x) & others
            if not d:
                return x
            m = TSub()
            for k2, h2 in heads.items():
                if k2 == k or not (hatoms[k2] & d):
                    continue
                pv = self.prefix(k2, h2, heads, chg, lend, t, guard, hatoms, allheads)
                if pv is None:
                    return None
                if isinstance(h2, Poly):
                    (hk, _), = h2.terms.items()
                    m[hk[1][0][0]] = pv
                elif isinstance(h2, Bool):
                    m.bools[h2.a] = pv
                elif isinstance(h2, T):
                    m.tens[h2.name] = pv
            return sub_any(x, m)

        if isinstance(new, Poly) and isinstance(h, Poly):
            (hk, _), = h.terms.items()
            hat = hk[1][0][0]
            hname = hat[1]
            # accumulate  h + f(t)
            d = new - h
            if hname not in names_of(d):
                d = resolve_others(d)
                if d is not None:
                    if not guard.is_true():
                        d = ite(guard, d, ZERO)
                    return P(orig) + sum_(t, ZERO, size, d) if not isinstance(orig, Undef) else sym("?")
            lc = self.lift_acc(new, h, hat)
            if lc is not None:
                kind, f = lc
                f = resolve_others(f)
                if f is not None:
                    if kind == "add":
                        return P(orig) + sum_(t, ZERO, size, ite(guard, f, ZERO) if not guard.is_true() else f)
                    if kind == "max":
                        if not guard.is_true():
                            f = ite(guard, f, ZERO)
                        return maxof([orig, bigmax_t(t, size, f)])
                    if kind == "min":
                        return minof([orig, -bigmax_t(t, size, -f)])
                    if kind == "flag":
                        c, v = f
                        e = exists_f(t, ZERO, size, and_(guard, c))
                        return ite(e, v, orig)
            if hname not in names_of(new):
                x = resolve_others(new)
                if x is not None:
                    last = subst(x, {("bv", t): size - 1})
                    if guard.is_true():
                        c = gt(size, 0)
                        return ite(c, last, orig) if not prove_ge0(size - 1) else last
                    if t not in free_bvs(x):
                        return ite(exists_f(t, ZERO, size, guard), x, orig)
            return fn("loop", StrKey("%s:%s" % (self.keyname(k), "")), orig, new, size)
        if isinstance(new, Bool) and isinstance(h, Bool):
            nm = h.a
            t1 = subst_b(new, TSub(bools={nm: TRUE}))
            t0 = subst_b(new, TSub(bools={nm: FALSE}))
            t1r, t0r = resolve_others(t1), resolve_others(t0)
            if t1r is not None and t0r is not None:
                ob = self.cond(orig) if not isinstance(orig, Undef) else bsym("undef")
                if tm.taut(not_(t0r)):      # h and g
                    return and_(ob, not_(exists_f(t, ZERO, size, and_(guard, not_(t1r)))))
                if tm.taut(t1r):       # h or g
                    return or_(ob, exists_f(t, ZERO, size, and_(guard, t0r)))
                if t1r == t0r:
                    last = subst_b(t1r, {("bv", t): size - 1})
                    if guard.is_true():
                        return merge(gt(size, 0), last, ob)
            return pred("loop", StrKey(self.keyname(k)), self.cond(orig), new)
        if isinstance(new, T) and isinstance(h, T):
            return self.close_t(k, h, new, orig, t, size, guard, allheads, resolve_others)
        if isinstance(new, VecV) and isinstance(h, VecV):
            return self.close_vec(k, h, new, orig, t, size, guard, resolve_others)
        return self.opq("loop", self.keyname(k), self.uid("x"))

    def close_vec(self, k, h, new, orig, t, size, guard, resolve):
        d = new.size - h.size
        c = d.const()
        if not isinstance(orig, VecV):
            orig = VecV(ZERO, lambda i: Undef())
        ins = getattr(new, "ins", None)
        if c == 1 and guard.is_true() and ins is None:
            # push_back once per iteration
            val = new.f(h.size)
            def f(i):
                pos = P(i) - orig.size
                v = resolve_val(resolve, val)
                v = subst_val(v, {("bv", t): pos})
                if orig.size == ZERO:
                    return v
                return merge(ge(pos, 0), v, orig.f(i))
            return VecV(orig.size + size, f)
        if c == 1 and guard.is_true() and ins is not None and ins[0] is h:
            # insertion at the same place in each iteration: the last one comes first
            p = resolve(ins[1])
            if p is not None and t not in free_bvs(p) and not (names_of(p) & self.head_names_v(h)):
                val = ins[2]

                def f(i):
                    i = P(i)
                    d = i - p
                    x = subst_val(resolve_val(resolve, val), {("bv", t): size - 1 - d})
                    return merge(gt(ZERO - d, 0), orig.f(i), merge(ge(d - size, 0), orig.f(i - size), x))
                return VecV(orig.size + size, f)
        if c == 0 and d == ZERO:
            # element writes, in each iteration to its own element
            tm.SIZE_SYMS.add("apart")
            off = 1 + sym("apart", True)
            for at in (bv(t), size - 1 - bv(t)):
                val = new.f(at)
                if isinstance(val, T):
                    # a matrix of known size written in each iteration
                    x = val.at(sym("?i", True), sym("?j", True))
                    here = h.f(at)
                    own = {y[1] for y in atoms_of(here.at(sym("?i", True), sym("?j", True))) if y[0] in ("fn", "el", "sym")} if isinstance(here, T) else {None}
                    if not guard.is_true() or None in own or (own - {"?i", "?j"}) & {y[1] for y in atoms_of(x)} or (self.head_names_v(h) - names_of(orig.size)) & names_of(x) or val.meta or not all(val_equal(new.f(g), h.f(g)) for g in (at + off, at - off)):
                        continue

                    def ft(i, at=at, val=val):
                        pos = P(i) if at == bv(t) else size - 1 - P(i)
                        v = subst_val(resolve_val(resolve, val), {("bv", t): pos})
                        return v if orig.size == size else merge(and_(ge(P(i), 0), gt(size - P(i), 0)), v, orig.f(P(i)))
                    return VecV(orig.size, ft)
                if not isinstance(val, (Poly, Rec)) or not all(val_equal(new.f(g), h.f(g)) for g in (at + off, at - off)):
                    continue
                names = dict(elem_paths(h.f(at)))
                if None in names:
                    continue
                # what is written depends on the element itself, not on others
                ok = {("el", nm, (at,)) for nm in names}
                here = [a for _, x in leaves_val(val) for a in atoms_of(x)]
                if any(a[0] == "el" and a[1] in names and a not in ok for a in here) or (self.head_names_v(h) - names_of(orig.size)) & names_of_any(val):
                    continue

                def f(i, at=at, val=val):
                    i = P(i)
                    pos = i if at == bv(t) else size - 1 - i
                    o = orig.f(i)
                    m = TSub(tens={n: (lambda *ix, path=path: path_of(orig.f(ix[0]), path)) for n, path in names.items()})
                    v = subst_val(subst_val(resolve_val(resolve, val), {("bv", t): pos}), m)
                    if not guard.is_true():
                        v = merge(subst_b(guard, {("bv", t): pos}), v, o)
                    return v if orig.size == size else merge(and_(ge(i, 0), gt(size - i, 0)), v, o)
                return VecV(orig.size, f)
            return VecV(orig.size, lambda i: self.opq("loopvec", self.keyname(k), i))
        if c is None and "ite" in d.key and not (names_of(d) & self.head_names_v(h)):
            # conditional push_back: size known, elements opaque
            return VecV(orig.size + sum_(t, ZERO, size, d), lambda i: self.opq("loopvec", self.keyname(k), i))
        return VecV(sym(self.uid("vecsize"), True), lambda i: self.opq("loopvec", self.keyname(k), i))

    def head_names_v(self, h):
        return names_of(h.size)

    def close_t(self, k, h, new, orig, t, size, guard, allheads, resolve):
        if new.f is h.f and new.rows == h.rows and new.cols == h.cols:
            origT = self.tens(orig)
            us = []
            for u in new.upds:
                u = u.rename()
                val = u.val
                mode = u.mode
                own = [a for a in atoms_of(val) | atoms_of(u.guard) if a[0] == "el" and a[1] == h.name]
                if mode != "set" and own:
                    val = fn("loopelem", StrKey(self.keyname(k)), val)
                if mode == "set" and own:
                    ownat = h.at(u.idx[0], u.idx[1])
                    d = val - ownat
                    if not any(a[0] == "el" and a[1] == h.name for a in atoms_of(d)) and h.name not in names_of(u.guard):
                        mode, val = "add", d
                    else:
                        (hk, _), = ownat.terms.items()
                        lc = self.lift_acc(val, ownat, hk[1][0][0])
                        if lc is not None and lc[0] in ("add", "max") and h.name not in names_of(u.guard):
                            mode, val = lc
                        elif all(a == hk[1][0][0] for a in own):
                            # in-place function of the same element (each element visited once)
                            inj = self.injective(u, t)
                            if inj:
                                o2 = origT
                                m = TSub(tens={h.name: (lambda *ix: o2.at(*(ix if len(ix) == 2 else ((ix[0], ZERO) if o2.cols == ONE else (ZERO, ix[0])))))})
                                val = subst(val, m)
                                u.guard = subst_b(u.guard, m)
                            else:
                                val = fn("loopelem", StrKey(self.keyname(k)), val)
                        else:
                            val = fn("loopelem", StrKey(self.keyname(k)), val)
                v2 = resolve(val)
                if v2 is None:
                    v2 = fn("loopdep", StrKey(self.keyname(k)), val)
                g2 = resolve(u.guard)
                if g2 is None:
                    g2 = pred("loopdep", u.guard)
                ix = []
                for e in u.idx:
                    e2 = resolve(e)
                    if e2 is None or h.name in names_of(e2):
                        e2 = fn("loopidx", StrKey(self.keyname(k)), e)
                    ix.append(e2)
                us.append(Upd(tuple(u.binders) + ((t, ZERO, size),), tuple(ix), and_(g2, guard), v2, mode).rename())
            # 0 in the not-visited (structurally zero) entries is handled by ite(nz,..)
            res = T(origT.rows, origT.cols, origT.f, origT.name, origT.upds, new.meta if not names_of_meta(new.meta, h) else origT.meta)
            for u in us:
                if u.mode == "set" and guard.is_true() and u.guard.is_true() and res.covers(u):
                    res = res.with_upd(u)
                else:
                    prev = res
                    res = T(res.rows, res.cols, res.f, res.name, res.upds + (u,), res.meta)
                    res.prev = prev
            return res
        # whole-tensor reassignment
        g = new.gen()
        if h.name not in names_of(g):
            x = resolve(g)
            if x is not None and guard.is_true():
                return T(subst(new.rows, {("bv", t): size - 1}), subst(new.cols, {("bv", t): size - 1}),
                         lambda i, j: subst(resolve(new.at(i, j)), {("bv", t): size - 1}))
        d = g - h.gen()
        if h.name not in names_of(d) and new.rows == h.rows and new.cols == h.cols:
            # whole-tensor accumulation
            origT = self.tens(orig)
            def f(i, j):
                dd = resolve(new.at(i, j) - h.at(i, j))
                if dd is None:
                    return fn("loopdep", StrKey(self.keyname(k)), i, j)
                tt = fresh()
                dd = subst(dd, {("bv", t): bv(tt)})
                gg = subst_b(guard, {("bv", t): bv(tt)})
                return origT.at(i, j) + sum_(tt, ZERO, size, ite(gg, dd, ZERO))
            return T(origT.rows, origT.cols, f, meta=origT.meta)
        nm = self.uid("loopT." + self.keyname(k))
        return T.base(nm, new.rows, new.cols, new.meta)

    def injective(self, u, t):
        """distinct (binders, t) write distinct elements"""
        vs = {v for v, _, _ in u.binders} | {t}
        for e in u.idx:
            for v in list(vs):
                af = affine_in(e, v)
                if af and abs(af[0]) >= 1 and not (free_bvs(af[1]) & vs):
                    vs.discard(v)
        if not vs:
            return True
        # e = c1 v1 + c2 v2 + ... with c1 >= 1 + what the others add at most, and so on
        span = {v: (hi - lo).const() for v, lo, hi in u.binders}
        for e in u.idx:
            left, cs = e, []
            for v in sorted(vs):
                af = affine_in(left, v)
                if not af or af[0] == 0 or free_bvs(af[1]) & {w for _, w in cs}:
                    cs = None
                    break
                left = af[1]
                cs.append((abs(af[0]), v))
            if cs is None or free_bvs(left) & vs:
                continue
            room, ok = 0, True
            for c, v in sorted(cs):
                ok = ok and room is not None and c >= room + 1
                room = None if span.get(v) is None or room is None else room + c * (span[v] - 1)
            if ok:
                return True
        return False

    def lift_acc(self, new, h, hat):
        """recognise accumulations through conditionals: add / max / min / flag"""
        if new == h:
            return ("add", ZERO)
        d = new - h
        if hat not in atoms_of(d):
            return ("add", d)
        if len(new.terms) == 1:
            ((b, f), c), = new.terms.items()
            if not b and c == 1 and len(f) == 1 and f[0][1] == 1:
                a = f[0][0]
                if a[0] in ("max", "min"):
                    rest = [x for x in a[1] if x != h]
                    if len(rest) < len(a[1]) and not any(hat in atoms_of(x) for x in rest):
                        return (a[0], maxof(rest) if a[0] == "max" else minof(rest))
                    return None
                if a[0] == "ite":
                    if hat in atoms_of(a[1]):
                        # flag guarded by itself?
                        return None
                    x = self.lift_acc(a[2], h, hat)
                    y = self.lift_acc(a[3], h, hat)
                    if x is not None and y is not None:
                        if x[0] == y[0] == "add":
                            return ("add", ite(a[1], x[1], y[1]))
                        if x[0] == "max" and y == ("add", ZERO) and nonneg(x[1]):
                            return ("max", ite(a[1], x[1], ZERO))
                        if y[0] == "max" and x == ("add", ZERO) and nonneg(y[1]):
                            return ("max", ite(a[1], ZERO, y[1]))
                        if x[0] == "flag" and y == ("add", ZERO):
                            return ("flag", (and_(a[1], x[1][0]), x[1][1]))
                        if y[0] == "flag" and x == ("add", ZERO):
                            return ("flag", (and_(not_(a[1]), y[1][0]), y[1][1]))
                        if x[0] == "flag" and y[0] == "flag" and x[1][1] == y[1][1]:
                            return ("flag", (or_(and_(a[1], x[1][0]), and_(not_(a[1]), y[1][0])), x[1][1]))
                    # flag: one side keeps, other side constant (independent of t handled by caller)
                    if y == ("add", ZERO) and hat not in atoms_of(a[2]) and not free_bvs(a[2]):
                        return ("flag", (a[1], a[2]))
                    if x == ("add", ZERO) and hat not in atoms_of(a[3]) and not free_bvs(a[3]):
                        return ("flag", (not_(a[1]), a[3]))
        # sums with an ite inside: distribute
        it = tm._sole_ite(new)
        if it is not None and hat not in atoms_of(it[1]):
            x = self.lift_acc(subst(new, {it: it[2]}), h, hat)
            y = self.lift_acc(subst(new, {it: it[3]}), h, hat)
            if x and y and x[0] == y[0] == "add":
                return ("add", ite(it[1], x[1], y[1]))
        return None

    def prefix(self, k, h, heads, chg, lend, t, guard, hatoms, allheads):
        """value of location k at the head of iteration t (closed form), or None"""
        orig = chg[k][0]
        new = lend.get(k)
        if new is None or isinstance(orig, Undef):
            return None
        if isinstance(h, Poly) and isinstance(new, Poly):
            d = new - h
            if not (names_of(d) & allheads):
                w = fresh()
                dd = subst(ite(guard, d, ZERO) if not guard.is_true() else d, {("bv", t): bv(w)})
                tm.RANGES[w] = (ZERO, bv(t))
                return P(orig) + sum_(w, ZERO, bv(t), dd)
            (hk, _), = h.terms.items()
            lc = self.lift_acc(new, h, hk[1][0][0])
            if lc and lc[0] == "add" and not (names_of(lc[1]) & allheads):
                w = fresh()
                tm.RANGES[w] = (ZERO, bv(t))
                dd = subst(ite(guard, lc[1], ZERO) if not guard.is_true() else lc[1], {("bv", t): bv(w)})
                return P(orig) + sum_(w, ZERO, bv(t), dd)
            if val_equal(new, h):
                return orig
            # last-value variable: value written by the previous iteration
            if not (names_of(new) & allheads) and guard.is_true():
                prev = subst(new, {("bv", t): bv(t) - 1})
                return ite(gt(bv(t), 0), prev, orig)
        if isinstance(h, T) and isinstance(new, T):
            # element-wise writes of other iterations: reads of elements not yet written give orig
            o = self.tens(orig)
            if new.f is h.f and not new.upds:
                return lambda *ix: o.at(*(ix if len(ix) == 2 else ((ix[0], ZERO) if o.cols == ONE else (ZERO, ix[0]))))
            return None
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """rvalue"""
        v = self.ev0(e)
        return v.get(self) if isinstance(v, LV) else v

    def lv(self, e):
        """location (or LVTemp for an rvalue)"""
        v = self.ev0(e)
        return v if isinstance(v, LV) else LVTemp(v)

    def ev0(self, e):
        c = e.get("c")
        k = e["k"]
        if c is not None and k not in ("Asg",) and not (k == "Un" and e["op"] in ("++", "--")):
            ty = self.prog.ty(e)
            if ty.get("k") in ("int", "uint", "float", "bool", "enum"):
                return self.parse_const(c, ty)
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k == "?":
                for x in e.get("a", []):
                    self.ev(x)
                if e.get("cls") in ("PredefinedExpr", "SourceLocExpr"):
                    return Opq("source location")
                self.note("expr " + e.get("cls", "?"), e)
                return self.opq("expr", e.get("cls", "?"), self.uid("u"))
            self.note("expr " + k, e)
            return self.opq("expr", k, self.uid("u"))
        return m(e)

    def e_Int(self, e):
        return P(int(e["v"]))

    def e_Char(self, e):
        return P(int(e["v"]))

    def e_Float(self, e):
        return self.parse_const(e["v"], self.prog.ty(e))

    def e_Bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_Str(self, e):
        return StrV(e.get("v", ""))

    def e_Null(self, e):
        return Opq("nullptr")

    def e_Zero(self, e):
        return self.zero(self.prog.ty(e))

    def e_This(self, e):
        this = self.frames[-1].this
        return RefV(this)

    def e_Ref(self, e):
        fr = self.frames[-1]
        dk = e.get("dk")
        if dk == "func":
            return FuncV(e["fn"])
        lv = fr.env.get(e["id"])
        if lv is not None:
            if isinstance(lv, LV):
                return lv
            return lv
        if dk == "global":
            g = self.prog.globals.get(e["id"])
            root = "g:" + (g["qn"] if g else e.get("qn", e["name"]))
            if root in self.st.roots:
                return LV(root)
            if g and g.get("init") is not None:
                self.frames.append(Frame({"full": "<init>", "name": "<init>", "ret": g["t"]}, {}, None))
                v = self.init_value(g["init"], self.prog.types[g["t"]], g["name"])
                self.frames.pop()
                self.st.roots[root] = v
                return LV(root)
            nm = e.get("qn", e["name"])
            if nm == "std::nullopt":
                return Opq("nullopt")
            self.st.roots[root] = Opq(nm)
            return LV(root)
        if e["name"] == "nullopt":
            return Opq("nullopt")
        self.note("unbound " + e["name"], e)
        return self.opq("unbound", e["name"])

    def e_Mem(self, e):
        base = self.lv(e["e"])
        if e.get("dk") == "global":
            return self.e_Ref(dict(e, k="Ref", dk="global"))
        v = base.get(self)
        # through pointers / references
        n = 0
        while isinstance(v, RefV) and n < 4:
            base, v, n = v.lv, v.lv.get(self), n + 1
        if e.get("fn"):
            return Opq("method:" + e["name"])
        if isinstance(base, LVElem):
            return LVTempSub(LVTemp(v), e["name"])
        return base.sub(e["name"])

    def e_Un(self, e):
        op = e["op"]
        if op == "&":
            return RefV(self.lv(e["e"]))
        if op == "*":
            v = self.ev(e["e"])
            if isinstance(v, RefV):
                return v.lv
            return self.opq("deref", v)
        if op in ("++", "--"):
            lv = self.lv(e["e"])
            v = lv.get(self)
            if isinstance(v, SpIter):
                lv.set(self, SpIter(v.lv, v.M, v.k, "advanced", v.rm))
                return lv
            old = self.scalar(v)
            lv.set(self, old + (1 if op == "++" else -1))
            return old if e.get("post") else lv
        v = self.ev(e["e"])
        if op == "-":
            if isinstance(v, T):
                return v.map(lambda x: -x)
            return -self.scalar(v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.cond(v))
        if op == "~":
            return fn("bitnot", self.scalar(v))
        return self.opq("un" + op, v)

    def e_Bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["lhs"])
            return self.ev0(e["rhs"])
        if op in ("&&", "||"):
            a = self.cond(self.ev(e["lhs"]))
            if op == "&&" and a.is_false() or op == "||" and a.is_true():
                return a
            # right operand evaluated conditionally: side effects only in rare cases
            st0 = self.st
            st1 = self.st.copy()
            self.st = st1
            b = self.cond(self.ev(e["rhs"]))
            if not a.is_true() and not a.is_false() and self.changed(st0, self.st):
                m = self.merge_states(a if op == "&&" else not_(a), self.st, st0)
                m.pc = st0.pc
                self.st = m
            return and_(a, b) if op == "&&" else or_(a, b)
        if op in ("==", "!=") and self.prog.ty(e["lhs"]).get("k") == "ptr":
            a, b = self.ev0(e["lhs"]), self.ev0(e["rhs"])
            if isinstance(a, RefV) and isinstance(b, RefV) and a.lv.root and b.lv.root:
                same = (a.lv.root, a.lv.path) == (b.lv.root, b.lv.path)
                return TRUE if same == (op == "==") else FALSE
        a, b = self.ev(e["lhs"]), self.ev(e["rhs"])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e=None):
        if isinstance(a, Undef):
            a = self.scalar(a)
        if isinstance(b, Undef):
            b = self.scalar(b)
        if op == "<=>" and isinstance(a, Poly) and isinstance(b, Poly):
            return a - b
        if op in ("+", "-") and isinstance(a, IterV) and a.found is None and isinstance(b, Poly):
            return IterV(a.lv, a.pos + b if op == "+" else a.pos - b)
        if op == "+" and isinstance(b, RefV) and isinstance(a, Poly):
            a, b = b, a
        if op in ("+", "-") and isinstance(a, RefV) and isinstance(b, Poly):
            t = a.lv.get(self)
            if isinstance(t, T) and t.cols == ONE:      # pointer into a vector
                n = b if op == "+" else -b
                return RefV(LVView(a.lv, t.rows - n, ONE, lambda i, j: (i + n, j)))
        if op == "-" and isinstance(a, IterV) and isinstance(b, IterV) and repr(a.lv) == repr(b.lv):
            return a.pos - b.pos
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, Bool) and isinstance(b, Bool) and op in ("==", "!="):
                r = or_(and_(a, b), and_(not_(a), not_(b)))
                return r if op == "==" else not_(r)
            if isinstance(a, Opt) or isinstance(b, Opt):
                return self.opt_cmp(op, a, b)
            if isinstance(a, IterV) and isinstance(b, IterV) and op in ("==", "!="):
                if a.found is None and b.found is not None:
                    a, b = b, a
                n = self.sizeof(b.lv)
                r = eq(a.pos, b.pos) if a.found is None else not_(a.found) if n is not None and b.pos == n else pred("itercmp", a.pos, b.pos)
                return r if op == "==" else not_(r)
            if isinstance(a, (T,)) or isinstance(b, T):
                x, y = self.tens(a), self.tens(b)
                r_, c_ = x.rows.const(), x.cols.const()
                n = r_ * c_ if r_ is not None and c_ is not None else 0
                if op in ("==", "!=") and x.rows == y.rows and x.cols == y.cols and 0 < n <= 16:
                    same = and_(*[eq(x.at(P(i), P(j)), y.at(P(i), P(j))) for i in range(int(x.rows.const())) for j in range(int(x.cols.const()))])
                    return same if op == "==" else not_(same)
                return pred("cmp" + op, x.gen(), y.gen())
            if isinstance(a, Opq) and isinstance(b, Opq) and a == b and op in ("==", "!="):
                return TRUE if op == "==" else FALSE
            if op in ("==", "!=") and any(isinstance(x, RefV) or isinstance(x, Opq) and x.key == "nullptr" for x in (a, b)):
                nul = lambda x: isinstance(x, Opq) and x.key == "nullptr" or isinstance(x, Poly) and x == ZERO
                if nul(a) and nul(b):
                    return TRUE if op == "==" else FALSE
                if (nul(a) or nul(b)) and (isinstance(a, RefV) or isinstance(b, RefV)):
                    return FALSE if op == "==" else TRUE
            x, y = self.scalar(a), self.scalar(b)
            return {"==": eq, "!=": ne, "<": lt, ">": gt, "<=": le, ">=": ge}[op](x, y)
        if isinstance(a, T) or isinstance(b, T):
            return self.tbin(op, a, b, e)
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("&", "|", "^"):
            if op == "&":
                return and_(a, b)
            if op == "|":
                return or_(a, b)
            return or_(and_(a, not_(b)), and_(not_(a), b))
        x, y = self.scalar(a), self.scalar(b)
        ty = self.prog.ty(e) if e is not None else {}
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if ty.get("k") in ("int", "uint"):
                return fn("idiv", x, y)
            return x / y
        if op == "%":
            return fn("mod", x, y)
        return fn("op" + op, x, y)

    def sizeof(self, lv):
        v = lv.get(self)
        return v.size if isinstance(v, VecV) else None

    def opt_cmp(self, op, a, b):
        def isnull(x):
            return isinstance(x, Opq) and x.key == "nullopt"
        if isnull(b):
            r = not_(a.has)
        elif isnull(a):
            r = not_(b.has)
        elif isinstance(a, Opt) and isinstance(b, Opt):
            r = or_(and_(a.has, b.has, eq(self.scalar(a.val), self.scalar(b.val))), and_(not_(a.has), not_(b.has)))
        elif isinstance(a, Opt):
            r = and_(a.has, eq(self.scalar(a.val), self.scalar(b))) if not isinstance(a.val, Undef) else FALSE
        else:
            r = and_(b.has, eq(self.scalar(b.val), self.scalar(a))) if not isinstance(b.val, Undef) else FALSE
        return r if op == "==" else not_(r)

    def tbin(self, op, a, b, e):
        if op in ("+", "-"):
            if isinstance(a, T) and isinstance(b, T):
                return (tadd if op == "+" else tsub)(a, b)
            # array +- scalar
            if isinstance(a, T):
                s = self.scalar(b)
                return a.map((lambda x: x + s) if op == "+" else (lambda x: x - s))
            s = self.scalar(a)
            return b.map((lambda x: s + x) if op == "+" else (lambda x: s - x))
        if op == "*":
            if isinstance(a, T) and isinstance(b, T):
                if e is not None and "fn" in e and str(e["fn"].get("qn", "")).startswith("Eigen::ArrayBase"):
                    return tcw(a, b, lambda x, y: x * y)
                return self.perm_mul(a, b)
            if isinstance(a, T):
                return tscale(self.scalar(b), a)
            return tscale(self.scalar(a), b)
        if op == "/":
            if isinstance(a, T) and isinstance(b, T):
                return tcw(a, b, lambda x, y: x / y)
            if isinstance(a, T):
                return tscale(inv(self.scalar(b)), a)
            s = self.scalar(a)
            return b.map(lambda x: s / x)
        return self.opq("tbin" + op, a, b)

    def perm_mul(self, a, b):
        w = a.meta.get("op")
        if w:
            return self.apply_op(w, a, b)
        return tmul(a, b)

    def apply_op(self, w, a, b):
        """opaque linear operators (factors of a decomposition) applied to a vector"""
        word = b.meta.get("word", ())
        src = b.meta.get("src", b)
        word = (w,) + word
        # Pinv Uinv Dinv Linv P  ==  H^-1
        key = w[1]
        seq = [x[0] for x in word]
        if seq[:5] == ["Pinv", "Uinv", "Dinv", "Linv", "P"] and len({x[1] for x in word[:5]}) == 1:
            return self.solve_result(key, src)
        r = tfn("linop", b.rows, b.cols, (StrKey(w[0] + ":" + key), lam(b)))
        r.meta = {"word": word, "src": src}
        return r

    def solve_result(self, key, rhs):
        name = "solve<%s>" % key
        n = self.solves.setdefault((key, rhs.key()), len(self.solves) + 1)
        nm = "SOL%d" % n
        if nm not in self.solve_info:
            self.solve_info[nm] = (key, rhs)
            deps = names_of_any(rhs)
            mat = self.mat_of(key)
            if mat is not None:
                deps |= names_of_any(mat)
            tm.SYM_DEPS[nm] = frozenset(deps)
        return T.base(nm, rhs.rows, rhs.cols)

    @property
    def solves(self):
        if not hasattr(self, "_solves"):
            self._solves = {}
        return self._solves

    @property
    def solve_info(self):
        if not hasattr(self, "_solve_info"):
            self._solve_info = {}
        return self._solve_info

    def e_Asg(self, e):
        op = e["op"]
        rv = self.ev(e["rhs"])
        lv = self.lv(e["lhs"])
        if op == "=":
            self.assign(lv, rv, self.prog.ty(e["lhs"]))
        else:
            a = lv.get(self)
            ty = self.prog.ty(e["lhs"])
            r = self.binop(op[:-1], a, rv, e["lhs"])
            if ty.get("k") == "bool" and not isinstance(r, Bool):
                # bool &= expr
                if op in ("&=", "|="):
                    r = (and_ if op == "&=" else or_)(self.cond(a), self.cond(rv))
                else:
                    r = self.cond(r)
            self.assign(lv, r, ty)
        return lv

    def assign(self, lv, rv, ty):
        v = self.convert(rv, ty) if ty else rv
        cur = None
        if isinstance(lv, LVView):
            lv.set(self, v if isinstance(v, (T, Poly)) else self.tens(v))
            return
        if isinstance(v, T) and "op" not in v.meta:
            old = lv.get(self)
            if isinstance(old, T):
                # keep storage-level attributes of the destination
                pass
        if lv.root is None and isinstance(lv, LVElem):
            lv.set(self, v)
            return
        cur = lv.get(self)
        if isinstance(cur, RefV) and not isinstance(v, RefV) and "ref" in (ty or {}):
            cur.lv.set(self, v)
            return
        lv.set(self, v)

    def e_Cond(self, e):
        c = self.cond(self.ev(e["c0"]))
        if c.is_true():
            return self.ev0(e["a"])
        if c.is_false():
            return self.ev0(e["b"])
        st0 = self.st
        pc0 = st0.pc
        self.st = st0.copy()
        self.st.pc = and_(pc0, c)
        a = self.ev(e["a"])
        sa = self.st
        self.st = st0.copy()
        self.st.pc = and_(pc0, not_(c))
        b = self.ev(e["b"])
        sb = self.st
        if sa is None or sb is None:
            # one side does not return (assert)
            self.events.append(("assert", c if sb is None else not_(c), pc0, self.prog.loc(e)))
            self.st = sa if sb is None else sb
            if self.st is not None:
                self.st.pc = pc0
            return a if sb is None else b
        m = self.merge_states(c, sa, sb)
        m.pc = pc0
        self.st = m
        return merge(c, a, b)

    def e_Sub(self, e):
        b = self.ev(e["b"])
        i = self.scalar(self.ev(e["i"]))
        if isinstance(b, PtrArr):
            if b.outer == "first" and i == ZERO:
                return ZERO         # the outer starts of a sparse matrix begin with 0
            return el(b.name, i)
        if isinstance(b, RefV):
            t = b.lv.get(self)
            if isinstance(t, T):
                return LVElem(b.lv, i, ZERO)
        return self.scalar(self.opq("sub", b, i))

    def e_Cast(self, e):
        ck = e["ck"]
        v = self.ev0(e["e"])
        if ck in ("IntegralCast", "FloatingCast", "IntegralToFloating", "NoOp", "LValueToRValue", "DerivedToBase",
                  "UncheckedDerivedToBase", "BaseToDerived"):
            if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
                return v
            v = v.get(self) if isinstance(v, LV) else v
            if isinstance(v, Bool):
                return P(v)
            return v
        if ck == "FloatingToIntegral":
            return fn("toint", self.scalar(v))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            v = v.get(self) if isinstance(v, LV) else v
            if isinstance(v, (RefV,)):
                return TRUE
            if isinstance(v, Opq) and v.key == "nullptr":
                return FALSE
            if isinstance(v, PtrArr):
                return TRUE if v.mat is not None else self.cond(self.opq("pointer", v.name))
            return self.cond(v)
        if ck == "ToVoid":
            return v
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return v
        return v

    def e_List(self, e):
        ty = self.prog.ty(e)
        items = []
        for x in e["a"]:
            items.append(self.ev(x))
        s = Seq(items, "list")
        k = ty.get("k")
        if k in ("float", "int", "uint", "bool", "enum"):
            return self.convert(items[0], ty) if items else self.zero(ty)
        if k == "rec" and ty.get("qn", "").startswith("std::initializer_list"):
            return s
        if k == "rec":
            return self.from_list(s, ty, "?", e)
        return s

    def e_Lambda(self, e):
        fr = self.frames[-1] if self.frames else Frame(None, {}, None)
        caps = {}
        this = fr.this
        for c in e["caps"]:
            if c.get("this"):
                continue
            if c.get("byref"):
                lv = fr.env.get(c["id"])
                if lv is None and c.get("init") is not None:
                    lv = self.lv(c["init"])
                if lv is not None:
                    caps[c["id"]] = lv
            else:
                if c.get("init") is not None:
                    v = self.ev(c["init"])
                else:
                    lv = fr.env.get(c["id"])
                    v = lv.get(self) if lv is not None else Undef(name=c.get("name"))
                root = self.uid("cap." + c.get("name", "?"))
                self.st.roots[root] = v
                caps[c["id"]] = LV(root)
        return Closure(e.get("ops", []), caps, this, e, e.get("mutable"))

    def e_Throw(self, e):
        self.events.append(("throw", self.st.pc, self.prog.loc(e)))
        # ends this path without a result
        self.st = None
        return Opq("throw")

    def e_New(self, e):
        if e.get("at") and e.get("e"):
            at = self.ev(e["at"])
            if isinstance(at, RefV):
                at.lv.set(self, self.ev(e["e"]))
                return at
        elif e.get("e"):
            root = self.uid("heap")
            self.st.roots[root] = self.ev(e["e"])
            return RefV(LV(root))
        return self.opq("new", self.uid("n"))

    def e_Delete(self, e):
        return Opq("void")

    # ------------------------------------------------------------------ calls
    def e_Ctor(self, e):
        ty = self.prog.ty(e)
        fnode = e["fn"]
        args = e["a"]
        qn = ty.get("qn", "")
        # copy / move
        if e.get("copy") and len(args) >= 1:
            src = self.ev0(args[0])
            return src if not isinstance(src, LV) else src.get(self)
        if fnode["name"] == "__unspec":
            return ZERO
        if fnode["id"] in self.prog.funcs and not e.get("copy"):
            f = self.prog.funcs[fnode["id"]]
            if not f.get("implicit") or True:
                return self.construct(f, ty, args, e)
        av = None
        if qn == "std::optional":
            if not args:
                return Opt(FALSE, Undef())
            v = self.ev(args[0])
            if isinstance(v, Opt):
                return v
            return self.convert(v, ty)
        if qn == "std::reference_wrapper":
            return RefV(self.lv(args[0]))
        if ty.get("name") in DECOMP:
            vals = [self.ev(a) for a in args]
            if vals:
                return self.decomp_value(ty, vals[0])
            return self.default(ty, "dec")
        if "eig" in ty:
            m = self.models.get("ctor:Eigen::" + ty.get("name", ""))
            if m:
                return m(self, e, args)
            if args:
                v = self.ev(args[0])
                if isinstance(v, RefV):
                    return self.buffer_view(v, ty, [self.ev(a) for a in args[1:]])
                return self.eig_ctor(ty, [v] + [self.ev(a) for a in args[1:]], "?", e)
            return self.eig_ctor(ty, [], "?", e)
        if qn in ("std::tuple", "std::pair"):
            its = []
            ta = ty.get("ta") or []
            if not args:
                return self.default(ty, "?")
            for n, a in enumerate(args):
                tt = self.prog.types[ta[n]["t"]] if n < len(ta) and "t" in ta[n] else {}
                if "ref" in tt:
                    its.append(RefV(self.lv(a)))
                else:
                    v = self.ev(a)
                    if n == 0 and len(args) == 1 and isinstance(v, Seq) and len(ta) > 1:
                        return v
                    its.append(self.convert(v, tt) if tt else v)
            return Seq(its, "tuple")
        if qn == "std::vector":
            if not args:
                return VecV(ZERO, lambda i: Undef())
            v = self.ev(args[0])
            if isinstance(v, Seq):
                return self.from_list(v, ty, "?", e)
            n = self.scalar(v)
            d = self.ev(args[1]) if len(args) > 1 and args[1].get("k") != "Ctor" else None
            et = self.prog.types[ty["ta"][0]["t"]]
            if d is None:
                d = self.zero(et)
            return VecV(n, lambda i: d)
        if qn in ("std::chrono::duration", "std::chrono::time_point"):
            if not args:
                return ZERO
            v = self.ev(args[0])
            if qn == "std::chrono::duration" and self.prog.ty(args[0]).get("k") in ("int", "uint", "float"):
                num, den = self.period(ty)
                return self.scalar(v) * P(Fraction(num, den))
            return v
        if ty.get("name") == "InnerIterator":
            mlv = self.lv(args[0])
            k = self.scalar(self.ev(args[1])) if len(args) > 1 else ZERO
            rm = bool(self.prog.ty(args[0]).get("rm"))
            it = SpIter(None, mlv, k, None, rm)
            it.sparse = self.prog.ty(args[0]).get("eig") == "sparse"
            return it
        m = self.models.get("ctor:" + qn)
        if m:
            return m(self, e, args)
        if qn in STRINGS and args:
            v = self.ev(args[0])
            if isinstance(v, (StrV, Poly)):
                return v
        rec = self.prog.records.get(ty.get("rec"))
        if rec and not args:
            return self.default(ty, "?")
        if qn == "std::nullopt_t":
            return Opq("nullopt")
        vals = [self.ev(a) for a in args]
        if qn in ("std::function",) and vals:
            return vals[0]
        if qn in ("std::shared_ptr", "std::unique_ptr"):
            if not vals:
                return Opq("nullptr")
            return vals[0]
        if not vals:
            return self.default(ty, "?")
        if (qn or "").endswith("_iterator") and len(vals) == 1 and isinstance(vals[0], IterV):
            return vals[0]
        return self.opq("ctor:" + (qn or ty.get("s", "?")), *vals)

    def buffer_view(self, v, ty, dims):
        """Eigen::Map over an array"""
        r, c = ty.get("rows", -1), ty.get("cols", -1)
        for a in ty.get("ta") or []:
            if "t" in a:
                x = self.prog.types[a["t"]]
                if "rows" in x:
                    r, c = x["rows"], x["cols"]
                    break
        dims = [self.scalar(d) for d in dims if isinstance(d, (Poly, int))]
        if c == 1:
            rows, cols = (P(r) if r >= 0 else dims[0]), ONE
        elif r == 1:
            rows, cols = ONE, (P(c) if c >= 0 else dims[0])
        else:
            rows = P(r) if r >= 0 else dims[0]
            cols = P(c) if c >= 0 else dims[-1]
        rm = bool(ty.get("rm"))
        mp = (lambda i, j: (i, ZERO)) if cols == ONE else (lambda i, j: (j, ZERO)) if rows == ONE else \
            (lambda i, j: (i * cols + j, ZERO)) if rm else (lambda i, j: (j * rows + i, ZERO))
        return LVView(v.lv, rows, cols, mp)

    def period(self, ty):
        r = self.prog.types[ty["ta"][1]["t"]]
        a = r.get("ta") or []
        return (a[0]["v"], a[1]["v"]) if len(a) == 2 else (1, 1)

    def decomp_value(self, ty, mat):
        m = self.tens(mat)
        return Rec(ty.get("s"), {"mat": m, "key": Opq(self.decomp_key(ty, m))})

    def decomp_key(self, ty, m):
        """factorization of the triangle it reads"""
        up = None
        nm = ty.get("name")
        ta = ty.get("ta") or []
        tri = None
        for a in ta:
            if "v" in a:
                tri = a["v"]
                break
        return "%s:%s:%s" % (nm, tri, self.register_mat(m, tri))

    def mat_of(self, key):
        """the matrix a factorization key stands for"""
        n = str(key).rsplit(":M", 1)
        if len(n) == 2 and n[1].isdigit() and int(n[1]) < len(getattr(self, "mats", [])):
            return self.mats[int(n[1])][0]
        return None

    def register_mat(self, m, tri):
        if not hasattr(self, "mats"):
            self.mats = []
        self.mats.append((m, tri))
        return "M%d" % (len(self.mats) - 1)

    def construct(self, f, ty, args, e, argvals=None):
        """run a user constructor"""
        base = self.default(ty, "?")
        if not isinstance(base, Rec):
            base = Rec(ty.get("s"), {}, ty.get("rec"))
        # implicit (defaulted) default constructor: member initializers
        root = self.uid("obj")
        self.st.roots[root] = base
        env = self.bind_params(f, args, argvals)
        fr = Frame(f, env, LV(root))
        self.enter(f, fr, e)
        try:
            for i in f.get("inits", []):
                if i.get("deleg"):
                    v = self.ev(i["e"])
                    self.st.roots[root] = v
                elif "name" in i:
                    rec = self.prog.records.get(ty.get("rec"))
                    ft = {}
                    if rec:
                        for fl in rec["fields"]:
                            if fl["name"] == i["name"]:
                                ft = self.prog.types[fl["t"]]
                    if "ref" in ft:
                        v = RefV(self.lv(i["e"]))
                    elif i["e"]["k"] == "Ctor" and not i["e"]["a"] and not i.get("written"):
                        continue
                    else:
                        v = self.init_value(i["e"], ft, i["name"])
                    LV(root).sub(i["name"]).set(self, v)
                elif "base" in i:
                    v = self.ev(i["e"])
                    if isinstance(v, Rec):
                        cur = self.st.roots[root]
                        self.st.roots[root] = Rec(cur.ty, dict(cur.fields, **v.fields), cur.rec)
            self.exec(f["body"])
        finally:
            self.leave(fr)
        return self.st.roots.get(root) if self.st else Opq("never")

    def bind_params(self, f, args, argvals=None):
        env = {}
        for n, p in enumerate(f["ps"]):
            ty = self.prog.types[p["t"]]
            if argvals is not None and n < len(argvals):
                a = argvals[n]
            elif n < len(args):
                a = self.ev0(args[n])
            elif p.get("def") is not None:
                a = self.ev0(p["def"])
            else:
                a = self.default(ty, p["name"])
            if "ref" in ty:
                if isinstance(a, LV):
                    if isinstance(a, LVTemp):
                        root = self.uid(p["name"])
                        self.st.roots[root] = a.val
                        env[p["id"]] = LV(root)
                    else:
                        v = None
                        env[p["id"]] = a
                elif isinstance(a, RefV) and ty.get("qn") != "std::reference_wrapper" and ty.get("k") != "ptr":
                    env[p["id"]] = a.lv
                else:
                    root = self.uid(p["name"])
                    self.st.roots[root] = self.convert(a, ty, p["name"])
                    env[p["id"]] = LV(root)
            else:
                v = a.get(self) if isinstance(a, LV) else a
                root = self.uid(p["name"])
                self.st.roots[root] = self.convert(v, ty, p["name"])
                env[p["id"]] = LV(root)
        return env

    def enter(self, f, fr, node):
        self.frames.append(fr)
        self.calls.add(f["full"])
        if len(self.frames) > self.MAXDEPTH:
            raise RecursionError("call depth in " + f["full"])
        fr.pc_out = self.st.pc
        self.st.pc = TRUE

    def leave(self, fr):
        """combine the exits of the frame: sets self.st and returns the value"""
        f = self.frames.pop()
        exits = fr.exits
        if self.st is not None:
            exits = exits + [(self.st.pc, None, self.st)]
        if not exits:
            self.st = None
            return Opq("noreturn")
        pc, val, st = exits[-1]
        st = st.copy()
        for c, v, s in reversed(exits[:-1]):
            st = self.merge_states(c, s, st)
            if isinstance(v, LV) or isinstance(val, LV):
                if repr(v) != repr(val) and v is not None and val is not None:
                    vv = v.get_in(s) if hasattr(v, "get_in") else self.in_state(v, s)
                    wv = self.in_state(val, st) if isinstance(val, LV) else val
                    val = merge(c, vv, wv)
            elif v is None and val is None:
                pass
            else:
                val = merge(c, v if v is not None else Undef(), val if val is not None else Undef())
        st.pc = fr.pc_out
        self.st = st
        return val

    def in_state(self, lv, st):
        if not isinstance(lv, LV):
            return lv
        o = self.st
        self.st = st
        r = lv.get(self)
        self.st = o
        return r

    def call(self, f, args, this=None, argvals=None, caps=None, node=None):
        """inline a function whose body is known"""
        ov = self.fn_ovr.get(f["name"])
        if ov:
            r = ov(self, f, args, this, argvals)
            if r is not NotImplemented:
                return r
        if sum(1 for fr in self.frames if fr.fn.get("id") == f["id"]) > 3:
            self.note("recursion " + f["full"], node or f)
            return self.opq("rec", f["full"], self.uid("r"))
        env = self.bind_params(f, args, argvals)
        if caps:
            env.update(caps)
        fr = Frame(f, env, this)
        self.enter(f, fr, node)
        self.exec(f["body"])
        return self.leave(fr)

    def call_closure(self, c, args, argvals=None, node=None, fid=None):
        """call a lambda object"""
        f = None
        if fid is not None and fid in self.prog.funcs:
            f = self.prog.funcs[fid]
        elif len(c.ops) == 1:
            f = self.prog.funcs.get(c.ops[0])
        else:
            n = len(argvals) if argvals is not None else len(args)
            for o in c.ops:
                g = self.prog.funcs.get(o)
                if g and len(g["ps"]) == n:
                    f = g
                    break
        if f is None:
            return self.opq("lambda?", self.uid("l"))
        return self.call(f, args, this=c.this, argvals=argvals, caps=c.caps, node=node)

    def invoke(self, fv, argvals, node=None, fid=None, retty=None):
        """call any callable value with evaluated arguments"""
        if isinstance(fv, LV):
            fv = fv.get(self)
        if isinstance(fv, RefV):
            fv = fv.lv.get(self)
        if isinstance(fv, Closure):
            return self.call_closure(fv, [], argvals=argvals, node=node, fid=fid)
        if isinstance(fv, UserFn):
            return self.user_call(fv, argvals, retty, node)
        if isinstance(fv, FuncV):
            f = self.prog.funcs.get(fv.fn["id"])
            if f:
                return self.call(f, [], argvals=argvals, node=node)
            lib = self.libcall(fv.fn, None, [a if isinstance(a, LV) else LVTemp(a) for a in argvals], node or {})
            return lib
        if isinstance(fv, Rec):
            for f in self.prog.funcs.values():
                if f["name"] == "operator()" and f.get("rec") == fv.rec and len(f["ps"]) == len(argvals):
                    root = self.uid("fobj")
                    self.st.roots[root] = fv
                    return self.call(f, [], this=LV(root), argvals=argvals, node=node)
        return self.opq("invoke", fv, *[a.get(self) if isinstance(a, LV) else a for a in argvals])

    def user_call(self, fv, argvals, retty, node):
        """uninterpreted user function"""
        args = []
        for a in argvals:
            a = a.get(self) if isinstance(a, LV) else a
            args += self.flat(a)
        self.events.append(("ucall", fv.name, tuple(args), self.st.pc, self.prog.loc(node) if node else "?"))
        ty = retty or {}
        return self.typed_fn(fv.name, ty, args)

    def typed_fn(self, name, ty, args):
        k = ty.get("k")
        args = tuple(args)
        if k == "bool":
            return pred(name, *args)
        if k in ("float", "int", "uint", "enum"):
            if k != "float":
                tm.INT_SYMS.add(name)
            return fn(name, *args)
        if k == "rec" and "eig" in ty:
            r = P(ty["rows"]) if ty.get("rows", -1) >= 0 else fn(name + ".rows", *args)
            c = P(ty["cols"]) if ty.get("cols", -1) >= 0 else fn(name + ".cols", *args)
            if ty.get("rows", -1) < 0:
                tm.INT_SYMS.add(name + ".rows")
            if ty.get("cols", -1) < 0:
                tm.INT_SYMS.add(name + ".cols")
            return tfn(name, r, c, args)
        if k == "rec" and ty.get("qn") in ("std::tuple", "std::pair"):
            return Seq([self.typed_fn("%s.%d" % (name, n), self.prog.types[a["t"]], args)
                        for n, a in enumerate(ty.get("ta") or [])], "tuple")
        if k == "rec" and (ty.get("qn", "").startswith("std::chrono") or ty.get("qn") in self.ext):
            return fn(name, *args)
        rec = self.prog.records.get(ty.get("rec")) if k == "rec" else None
        if rec:
            return Rec(ty["s"], {f["name"]: self.typed_fn(name + "." + f["name"], self.prog.types[f["t"]], args)
                                 for f in rec["fields"]}, rec["id"])
        return Opq(name + "(" + ";".join(a.key for a in args) + ")")

    def flat(self, a):
        """flatten a value into scalar-ish arguments of an uninterpreted function"""
        if isinstance(a, LV):
            a = a.get(self)
        if isinstance(a, Poly) or isinstance(a, Bool):
            return [a]
        if isinstance(a, T):
            return [lam(a)]
        if isinstance(a, Rec):
            r = []
            for v in a.fields.values():
                r += self.flat(v)
            return r
        if isinstance(a, Seq):
            r = []
            for v in a.items:
                r += self.flat(v)
            return r
        if isinstance(a, Opt):
            return [a.has] + self.flat(a.val)
        if isinstance(a, RefV):
            return self.flat(a.lv.get(self))
        if isinstance(a, Opq):
            return [fn("opq", StrKey(a.key))]
        if isinstance(a, (int, float)):
            return [P(a)]
        if isinstance(a, UserFn):
            return [fn("opq", StrKey("fn:" + a.name))]
        return [fn("opq", StrKey(repr(a)[:100]))]

    def model_of(self, qn):
        m = self.models.get(qn)
        if m is None and "<" in qn and self.models:
            m = self.models.get(strip_targs(qn))
        return m

    # -- call expressions
    def e_Call(self, e):
        fnode = e.get("fn")
        if fnode is None:
            ce = self.ev(e["ce"])
            return self.invoke(ce, [self.ev0(a) for a in e["a"]], e, retty=self.prog.ty(e))
        m = self.model_of(fnode["qn"])
        if m:
            r = m(self, e, None, e["a"])
            if r is not NotImplemented:
                return r
        if fnode["id"] in self.prog.funcs:
            return self.call(self.prog.funcs[fnode["id"]], e["a"], node=e)
        return self.libcall(fnode, None, [self.ev0(a) for a in e["a"]], e)

    def e_MCall(self, e):
        fnode = e.get("fn")
        if fnode is None:
            for a in e["a"]:
                self.ev(a)
            return self.opq("mcall?", self.uid("m"))
        m = self.model_of(fnode["qn"])
        if m:
            r = m(self, e, e.get("o"), e["a"])
            if r is not NotImplemented:
                return r
        if fnode["id"] in self.prog.funcs and e.get("o"):
            o = self.lv(e["o"])
            v = o.get(self)
            n = 0
            while isinstance(v, RefV) and n < 4:
                o, v, n = v.lv, v.lv.get(self), n + 1
            if isinstance(v, Closure):
                return self.call_closure(v, e["a"], node=e, fid=fnode["id"])
            f = self.prog.funcs[fnode["id"]]
            if not f.get("static"):
                return self.call(f, e["a"], this=o, node=e)
            return self.call(f, e["a"], node=e)
        o = self.lv(e["o"]) if e.get("o") else None
        return self.libcall(fnode, o, [self.ev0(a) for a in e["a"]], e)

    def e_Op(self, e):
        fnode = e.get("fn") or {"qn": "?", "name": "operator" + e["op"], "id": -1}
        op = e["op"]
        m = self.model_of(fnode["qn"])
        if m:
            r = m(self, e, None, e["a"])
            if r is not NotImplemented:
                return r
        a = e["a"]
        if op == "<=>" or (len(a) == 2 and any(x["k"] == "Ctor" and x["fn"]["name"] == "__unspec" for x in a)):
            x, y = (self.ev(z) for z in a)
            x, y = (z.get(self) if isinstance(z, LV) else z for z in (x, y))
            if isinstance(x, Poly) and isinstance(y, Poly):
                return x - y if op == "<=>" else self.binop(op, x, y)
        if op == "()":
            o = self.lv(a[0])
            v = o.get(self)
            n = 0
            while isinstance(v, RefV) and n < 4:
                o, v, n = v.lv, v.lv.get(self), n + 1
            if isinstance(v, (Closure, UserFn)):
                if isinstance(v, Closure):
                    return self.call_closure(v, a[1:], node=e, fid=fnode["id"])
                return self.user_call(v, [self.ev0(x) for x in a[1:]], self.prog.ty(e), e)
            if fnode["id"] in self.prog.funcs:
                return self.call(self.prog.funcs[fnode["id"]], a[1:], this=o, node=e)
            if isinstance(v, (T, Undef)) or isinstance(o, LVView):
                return self.elem(o, [self.scalar(self.ev(x)) for x in a[1:]])
            if isinstance(v, Opq) and str(v.key).startswith("std::ranges::"):
                # std::ranges::begin and its like are function objects
                return self.libcall({"qn": v.key, "name": v.key.rsplit("::", 1)[1], "id": -1}, None, [self.ev0(x) for x in a[1:]], e)
            return self.invoke(v, [self.ev0(x) for x in a[1:]], e, retty=self.prog.ty(e))
        if fnode["id"] in self.prog.funcs:
            f = self.prog.funcs[fnode["id"]]
            if f.get("rec") and not f.get("static"):
                o = self.lv(a[0])
                v = o.get(self)
                if isinstance(v, RefV):
                    o = v.lv
                if f.get("implicit") and op == "=":
                    self.assign(o, self.ev(a[1]), self.prog.ty(a[0]))
                    return o
                return self.call(f, a[1:], this=o, node=e)
            return self.call(f, a, node=e)
        if op == "[]":
            o = self.lv(a[0])
            v = o.get(self)
            if isinstance(v, RefV):
                o, v = v.lv, v.lv.get(self)
            i = self.scalar(self.ev(a[1]))
            if isinstance(v, T) or isinstance(o, LVView) or (isinstance(v, Undef) and "eig" in self.prog.ty(a[0])):
                return self.elem(o, [i])
            if isinstance(v, VecV):
                return o.sub(i) if not isinstance(o, LVTemp) else v.f(i)
            if isinstance(v, Seq):
                c = i.const()
                if c is not None:
                    it = v.items[int(c)]
                    return it.lv if isinstance(it, RefV) else o.sub(int(c))
                if 0 < len(v.items) <= 16:
                    return LVPick(o, i)
            return self.opq("idx", v, i)
        if op in ("=",):
            rv = self.ev0(a[1])
            o = self.lv(a[0])
            v = o.get(self) if not isinstance(o, LVView) else None
            if isinstance(v, RefV) and self.prog.ty(a[0]).get("qn") not in ("std::reference_wrapper", "std::shared_ptr", "std::unique_ptr"):
                o = v.lv
            rv = rv.get(self) if isinstance(rv, LV) else rv
            if isinstance(v, Seq) and isinstance(rv, Seq) and any(isinstance(x, RefV) for x in v.items):
                # std::tie(...) = tuple
                for x, y in zip(v.items, rv.items):
                    if isinstance(x, RefV):
                        x.lv.set(self, y)
                return o
            if isinstance(o, LVView):
                rv = broadcast(o.meta, rv, o.rows, o.cols)
            self.assign(o, rv, self.prog.ty(a[0]))
            return o
        if op in ("+=", "-=", "*=", "/=", "&=", "|="):
            rv = self.ev(a[1])
            o = self.lv(a[0])
            cur = o.get(self)
            if isinstance(cur, T) and "vw" in cur.meta:
                r = vw_op(op[:-1], cur, rv)
            else:
                r = self.binop(op[:-1], cur, rv, e)
            if isinstance(o, LVView):
                o.set(self, r if isinstance(r, (T, Poly)) else self.tens(r))
            else:
                if isinstance(r, T) and isinstance(cur, T) and cur.meta:
                    m = {k: v for k, v in cur.meta.items() if k in ("comp",)}
                    if "pat" in r.meta:
                        m["pat"] = r.meta["pat"]
                    r = T(r.rows, r.cols, r.f, r.name, r.upds, m)
                o.set(self, r)
            return o
        if op in ("++", "--"):
            o = self.lv(a[0])
            v = o.get(self)
            if isinstance(v, SpIter):
                o.set(self, SpIter(v.lv, v.M, v.k, "advanced", v.rm))
                return o
            x = self.scalar(v)
            o.set(self, x + (1 if op == "++" else -1))
            return o
        if op == "<<":
            l = self.ev0(a[0])
            lvl = l.get(self) if isinstance(l, LV) else l
            if isinstance(lvl, CommaInit):
                r = self.ev(a[1])
                lvl.push(self, r)
                return lvl
            if isinstance(l, LV) and isinstance(lvl, (T, Undef)) and "eig" in self.prog.ty(a[0]):
                ci = CommaInit(l)
                ci.push(self, self.ev(a[1]))
                return ci
            r = self.ev(a[1])
            self.events.append(("out", r, self.st.pc, self.prog.loc(e)))
            return Opq("ostream")
        if op == ",":
            l = self.ev(a[0])
            if isinstance(l, CommaInit):
                l.push(self, self.ev(a[1]))
                return l
            self.ev(a[0])
            return self.ev0(a[1])
        if op == "*" and len(a) == 1:
            o = self.lv(a[0])
            v = o.get(self)
            if isinstance(v, Opt):
                return v.val.lv if isinstance(v.val, RefV) else o.sub("*")
            if isinstance(v, RefV):
                return v.lv
            if isinstance(v, IterV):
                return v.at(self)
            return self.opq("deref", v)
        if op == "->":
            o = self.lv(a[0])
            v = o.get(self)
            if isinstance(v, Opt):
                return RefV(o.sub("*"))
            if isinstance(v, IterV):
                return RefV(v.at(self))
            return v
        if op == "-" and len(a) == 1:
            v = self.ev(a[0])
            return v.map(lambda x: -x) if isinstance(v, T) else -self.scalar(v)
        if op == "!":
            return not_(self.cond(self.ev(a[0])))
        if len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, T) and "vw" in x.meta and isinstance(y, (T, Poly)):
                return vw_op(op, x, y)
            t0, t1 = self.prog.ty(a[0]), self.prog.ty(a[1])
            for n, (v, t) in enumerate(((x, t0), (y, t1))):
                pass
            if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"):
                lib = self.models.get("op" + op)
                if lib:
                    r = lib(self, e, x, y)
                    if r is not NotImplemented:
                        return r
                return self.binop(op, x, y, e)
        vals = [self.ev(x) for x in a]
        self.note("op " + op, e)
        return self.opq("op" + op, *vals)

    def elem(self, o, ix):
        t = o.get(self)
        t = self.tens(t)
        if isinstance(o, LV) and not isinstance(o, (LVView,)) and isinstance(o.get(self), Undef):
            o.set(self, t)
        if len(ix) == 1:
            if t.cols == ONE:
                i, j = ix[0], ZERO
            elif t.rows == ONE:
                i, j = ZERO, ix[0]
            else:
                i, j = ix[0], ZERO
        else:
            i, j = ix
        return LVElem(o, i, j)

    def eig_ctor(self, ty, vals, name, node):
        r, c = ty.get("rows", -1), ty.get("cols", -1)
        vals = [v.get(self) if isinstance(v, LV) else v for v in vals]
        if not vals:
            return self.default(ty, name)
        if ty.get("name") == "Ref" and isinstance(vals[0], T):
            return vals[0]
        if len(vals) == 1 and isinstance(vals[0], (T, Opq, Undef)):
            v = self.tens(vals[0])
            meta = {}
            if ty.get("eig") == "sparse":
                meta = {"comp": v.meta.get("comp", TRUE)}
                if "pat" in v.meta:
                    meta["pat"] = v.meta["pat"]
            if "op" in v.meta or "word" in v.meta:
                return v
            return T(v.rows, v.cols, v.f, v.name, v.upds, meta)
        if len(vals) == 1 and isinstance(vals[0], VecV):
            v = vals[0]
            return T(v.size, ONE, lambda i, j: self.scalar(v.f(i)))
        nd = [self.scalar(v) for v in vals]
        nm = self.uid("uninit")
        rv = c == 1 or r == 1
        if ty.get("eig") == "sparse":
            t = tconst(nd[0], nd[1], ZERO)
            t.meta = {"comp": TRUE}
            return t
        isvec = (c == 1) != (r == 1)
        if isvec and len(nd) == 1 and (r == -1 or c == -1):
            return T.base(nm, nd[0] if c == 1 else ONE, ONE if c == 1 else nd[0])
        if len(nd) == 1 and r > 0 and c > 0:
            if r == 1 and c == 1:
                return tconst(1, 1, nd[0])
            if isvec:
                return T.base(nm, P(r), P(c))
        if len(nd) == 2 and (r == -1 or c == -1) and not (isvec and r * c in (2, -2) and False):
            if not (isvec and max(r, c) == 2):
                return T.base(nm, nd[0] if r == -1 else P(r), nd[1] if c == -1 else P(c))
        # coefficient list
        n = len(nd)
        def f(i, j):
            ix = i if c == 1 else j
            k = ix.const()
            if k is not None and 0 <= k < n:
                return nd[int(k)]
            x = nd[-1]
            for q in range(n - 2, -1, -1):
                x = ite(eq(ix, q), nd[q], x)
            return x
        return T(P(n) if c == 1 else ONE, ONE if c == 1 else P(n), f)

    def libcall(self, fnode, o, args, e):
        from . import lib
        return lib.call(self, fnode, o, args, e)

    # ------------------------------------------------------------------ entry point
    def run(self, f, this=None, argvals=None):
        v = self.call(f, [], this=this, argvals=argvals)
        return v.get(self) if isinstance(v, LV) else v


DECOMP = {"LDLT", "SimplicialLDLT", "LLT", "SimplicialLLT", "PartialPivLU", "FullPivLU", "ColPivHouseholderQR",
          "HouseholderQR", "SparseLU", "SparseQR", "CompleteOrthogonalDecomposition"}


_strip = {}


def strip_targs(qn):
    """qualified name without template arguments"""
    r = _strip.get(qn)
    if r is None:
        if "operator<" in qn or "operator-" in qn and "operator->" in qn:
            r = qn
        else:
            d, o = 0, []
            for c in qn:
                if c == "<":
                    d += 1
                elif c == ">":
                    d -= 1
                elif d == 0:
                    o.append(c)
            r = "".join(o)
        _strip[qn] = r
    return r


class StrKey:
    """a string usable as an argument of uninterpreted functions"""
    def __init__(self, s):
        self.key = s

    def __eq__(self, o):
        return isinstance(o, StrKey) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


def stored(pat, r, c):
    """an entry is stored if one of the summands (patterns do not depend on the values) stores it"""
    return or_(*[pred("stored:" + p, r, c) for p in sorted(pat)])


class PtrArr(Val):
    def __init__(self, name, mat=None, outer=False):
        self.name, self.mat, self.outer = name, mat, outer


class ZipV(Val):
    def __init__(self, parts, size):
        self.parts, self.size = parts, size

    def elem(self, I, i):
        out = []
        for lv, v in self.parts:
            if isinstance(v, VecV):
                out.append(RefV(lv.sub(i)) if not isinstance(lv, LVTemp) else v.f(i))
            elif isinstance(v, CountV):
                out.append(v.start + i)
            else:
                out.append(I.opq("zipelem", v, i))
        return Seq(out, "tuple")


class CountV(Val):
    """iota view"""
    def __init__(self, start, size=None):
        self.start, self.size = start, size


class IterV(Val):
    """iterator standing at position pos of a container; found: condition of being dereferenceable (searches)"""
    def __init__(self, lv, pos, found=None):
        self.lv, self.pos, self.found = lv, pos, found

    def at(self, I, d=ZERO):
        """the element d further"""
        p = self.pos + d
        c = p.const()
        if c is not None and c.denominator == 1 and isinstance(self.lv.get(I), Seq):
            return self.lv.sub(int(c))
        return self.lv.sub(p)

    def __repr__(self):
        return "iter(%r, %s)" % (self.lv, self.pos.key)


STRINGS = ("std::basic_string", "std::__cxx11::basic_string", "std::string", "std::basic_string_view")


class CommaInit(Val):
    def __init__(self, lv):
        self.lv, self.n = lv, ZERO
        self.r = self.c = ZERO
        self.rowh = ZERO

    def push(self, I, v):
        t = I.tens(self.lv.get(I))
        x = I.tens(v)
        R, C = t.rows, t.cols
        if not isinstance(self.lv, LVView) and isinstance(self.lv.get(I), Undef):
            self.lv.set(I, t)
        if self.c != ZERO and (C - self.c) == ZERO:
            self.r, self.c = self.r + self.rowh, ZERO
        r0, c0 = self.r, self.c
        LVView(self.lv, x.rows, x.cols, lambda i, j: (r0 + i, c0 + j)).set(I, x)
        self.rowh = x.rows
        self.c = self.c + x.cols


def brk_affects_trip(brk):
    return False


def implies_syntactic(a, b):
    """a == (b and ...)"""
    if a == b or a.is_false():
        return True
    if a.kind == "and":
        return any(x == b for x in a.a)
    # ite-like: or of conjunctions each containing b
    if a.kind == "or":
        return all(implies_syntactic(x, b) for x in a.a)
    return False


def names_of_any(x):
    if isinstance(x, (Poly, Bool)):
        return names_of(x)
    if isinstance(x, T):
        return names_of(x.gen()) | names_of(x.rows) | names_of(x.cols)
    if isinstance(x, Opt):
        return names_of_any(x.has) | names_of_any(x.val)
    if isinstance(x, Rec):
        s = set()
        for v in x.fields.values():
            s |= names_of_any(v)
        return s
    if isinstance(x, Seq):
        s = set()
        for v in x.items:
            s |= names_of_any(v)
        return s
    if isinstance(x, VecV):
        return names_of_any(x.f(bv("gi"))) | names_of(x.size)
    if isinstance(x, Opq):
        s = {x.key}
        for d in x.deps:
            if isinstance(d, (Poly, Bool, T, Opq, Rec, Seq)):
                s |= names_of_any(d)
        return s
    return set()


def names_of_meta(m, h):
    s = set()
    for v in m.values():
        if isinstance(v, (Poly, Bool)):
            s |= names_of(v)
    return {x for x in s if x.startswith(h.name or "\0")}


def free_any(x):
    if isinstance(x, (Poly, Bool)):
        return free_bvs(x)
    if isinstance(x, T):
        return free_bvs(x.gen()) | free_bvs(x.rows)
    if isinstance(x, Opt):
        return free_any(x.has) | free_any(x.val)
    if isinstance(x, Rec):
        return frozenset().union(*[free_any(v) for v in x.fields.values()])
    if isinstance(x, Seq):
        return frozenset().union(*[free_any(v) for v in x.items])
    if isinstance(x, VecV):
        return free_any(x.size) | (free_any(x.f(bv("gi"))) - {"gi"})
    if isinstance(x, Opq):
        return frozenset().union(*[free_any(v) for v in x.deps])
    return frozenset()


def sub_any(x, m):
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, Bool):
        return subst_b(x, m)
    return x


def leaves_val(v, path=()):
    """(path, number or condition) of a record"""
    if isinstance(v, Rec):
        for k, x in v.fields.items():
            yield from leaves_val(x, path + (k,))
    else:
        yield path, v


def path_of(v, path):
    for k in path:
        v = v.fields[k]
    return v


def elem_paths(v):
    """(name, path) of the numbers an unknown element consists of; the name is None when it is something else"""
    for path, x in leaves_val(v):
        a = list(atoms_of(x)) if isinstance(x, Poly) else []
        a = [y for y in a if y[0] == "el" and from_atom(y) == x]
        yield (a[0][1] if a else None), path


def subst_val(v, m):
    if isinstance(v, Poly):
        return subst(v, m)
    if isinstance(v, Bool):
        return subst_b(v, m)
    if isinstance(v, T):
        return T(subst(v.rows, m), subst(v.cols, m), lambda i, j: subst(v.at(i, j), m))
    if isinstance(v, Rec):
        return Rec(v.ty, {k: subst_val(x, m) for k, x in v.fields.items()}, v.rec)
    if isinstance(v, Seq):
        return Seq([subst_val(x, m) for x in v.items], v.kind)
    if isinstance(v, Opt):
        return Opt(subst_b(v.has, m), subst_val(v.val, m))
    return v


def resolve_val(resolve, v):
    if isinstance(v, (Poly, Bool)):
        r = resolve(v)
        return r if r is not None else v
    if isinstance(v, T):
        def f(i, j):
            r = resolve(v.at(i, j))
            return r if r is not None else v.at(i, j)
        return T(v.rows, v.cols, f)
    if isinstance(v, Rec):
        return Rec(v.ty, {k: resolve_val(resolve, x) for k, x in v.fields.items()}, v.rec)
    if isinstance(v, Seq):
        return Seq([resolve_val(resolve, x) for x in v.items], v.kind)
    return v


def first_pos(t, size, c):
    """the first index with the property c (size when there is none)"""
    w = fresh()
    tm.RANGES[w] = (ZERO, size)
    i = bv(w)
    return -bigmax(w, ZERO, size, ite(subst_b(c, {("bv", t): i}), -i, -size))


def bigmax_t(t, size, f):
    w = fresh()
    tm.RANGES[w] = (ZERO, size)
    return bigmax(w, ZERO, size, subst(f, {("bv", t): bv(w)}))
