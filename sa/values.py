"""Abstract values: tensors with symbolic element functions, records, optionals, closures."""
import math
from .terms import *
from . import terms as tm


class Val:
    pass


class Undef(Val):
    """storage that was declared but not written"""
    def __init__(self, ty=None, name="?"):
        self.ty, self.name = ty, name

    def __repr__(self):
        return "<undef %s>" % self.name


class Opq(Val):
    """a value the interpreter does not model; `key` identifies it"""
    def __init__(self, key, deps=()):
        self.key, self.deps = key, tuple(deps)

    def __repr__(self):
        return "<opaque %s>" % self.key[:80]

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Rec(Val):
    def __init__(self, ty, fields, rec=None):
        self.ty, self.fields, self.rec = ty, fields, rec

    def set(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return Rec(self.ty, d, self.rec)

    def __repr__(self):
        return "{" + ", ".join("%s=%r" % kv for kv in self.fields.items()) + "}"


class Opt(Val):
    def __init__(self, has, val):
        self.has, self.val = has, val

    def __repr__(self):
        return "opt(%r, %r)" % (self.has, self.val)


class Seq(Val):
    """fixed-length sequence (pair, tuple, std::array, init list)"""
    def __init__(self, items, kind="seq"):
        self.items, self.kind = tuple(items), kind

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.items)) + "]"


class VecV(Val):
    """std::vector of symbolic length"""
    def __init__(self, size, f, appended=()):
        self.size, self.f = size, f


class RefV(Val):
    """reference_wrapper / pointer to a location"""
    def __init__(self, lv):
        self.lv = lv


class Closure(Val):
    def __init__(self, ops, caps, this, node, mutable=False):
        self.ops, self.caps, self.this, self.node, self.mutable = ops, caps, this, node, mutable


class FuncV(Val):
    def __init__(self, fn):
        self.fn = fn


class UserFn(Val):
    """an unknown user supplied callable: an uninterpreted function symbol"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<fn %s>" % self.name


class StrV(Val):
    """string literal; strings are numbered, only equality matters"""
    ids = {}

    def __init__(self, s):
        self.s = s

    def num(self):
        return P(StrV.ids.setdefault(self.s, len(StrV.ids) + 1))


class SpIter(Val):
    """sparse/dense InnerIterator standing at inner position pos of outer slice k of matrix M"""
    def __init__(self, lv, M, k, pos, rowmajor):
        self.lv, self.M, self.k, self.pos, self.rm = lv, M, k, pos, rowmajor

    def rc(self):
        return (self.k, self.pos) if self.rm else (self.pos, self.k)


def index_range(p, ctx):
    """constant bounds (lo, hi), both included, of an affine combination of index variables, or None"""
    lo = hi = Fraction(0)
    for (b, f), c in p.terms.items():
        if not f and not b:
            lo, hi = lo + c, hi + c
            continue
        if b or len(f) != 1 or f[0][1] != 1 or f[0][0][0] != "bv":
            return None
        r = ctx.get(f[0][0][1]) or tm.RANGES.get(f[0][0][1])
        a, z = (P(r[0]).const(), P(r[1]).const()) if r else (None, None)
        if a is None or z is None or z <= a:
            return None
        lo, hi = (lo + c * a, hi + c * (z - 1)) if c > 0 else (lo + c * (z - 1), hi + c * a)
    return lo, hi


def split_eq(d, unknowns, binders):
    """d == 0 as two equations x == 0, y == 0 when d = c*x + y with |y| < c (d an integer)"""
    if not d.is_int():
        return None
    ctx = {v: (lo, hi) for v, lo, hi in binders}
    small, rest = {}, {}
    for k, c in d.terms.items():
        if not k[1] and not k[0] or index_range(Poly({k: c}), ctx) is not None:
            small[k] = c
        else:
            rest[k] = c
    if not rest:
        return None
    cs = [abs(c) for c in rest.values()]
    if any(c.denominator != 1 for c in cs):
        return None
    g = 0
    for c in cs:
        g = math.gcd(g, int(c))
    if g < 2:
        return None
    # small terms that are multiples of g belong to x
    for k in [k for k in small if k[1] and small[k] % g == 0]:
        rest[k] = small.pop(k)
    if ((), ()) in small:
        c = small.pop(((), ()))
        # the remainder of the constant in the range that y covers
        lo, hi = index_range(Poly(small), ctx)
        m = c % g
        for r in (m, m - g):
            if -g < lo + r and hi + r < g:
                if r:
                    small[((), ())] = r
                if c - r:
                    rest[((), ())] = c - r
                break
        else:
            return None
    lo, hi = index_range(Poly(small), ctx)
    if not (-g < lo and hi < g):
        return None
    if not small and not ((free_bvs(d)) & unknowns):
        return None
    return Poly({k: Fraction(c) / g for k, c in rest.items()}), Poly(small)


class Upd:
    __slots__ = ("binders", "idx", "guard", "val", "mode")

    def __init__(self, binders, idx, guard, val, mode="set"):
        self.binders, self.idx, self.guard, self.val, self.mode = tuple(binders), idx, guard, val, mode

    def rename(self):
        m = {}
        nb = []
        for v, lo, hi in self.binders:
            n = fresh()
            m[("bv", v)] = bv(n)
            lo2, hi2 = subst(lo, m), subst(hi, m)
            tm.RANGES[n] = (lo2, hi2)
            nb.append((n, lo2, hi2))
        return Upd(nb, tuple(subst(p, m) for p in self.idx), subst_b(self.guard, m), subst(self.val, m), self.mode)

    def sub(self, m):
        u = self.rename()
        return Upd([(v, subst(lo, m), subst(hi, m)) for v, lo, hi in u.binders],
                   tuple(subst(p, m) for p in u.idx), subst_b(u.guard, m), subst(u.val, m), u.mode)

    def solve(self, i, j):
        """binders expressed through the queried index (i,j): (subst, condition, unsolved binders)"""
        u = self.rename()
        m = {}
        conds = []
        todo = list(u.binders)
        eqs = [(u.idx[0], i), (u.idx[1], j)]
        done = []
        progress = True
        while progress and todo:
            progress = False
            for e, q in eqs:
                e2 = subst(e, m)
                for b in todo:
                    v, lo, hi = b
                    af = affine_in(e2, v)
                    if af and abs(af[0]) == 1:
                        # other unsolved binders in the equation?
                        val = (q - af[1]) * af[0]
                        others = {x[0] for x in todo if x[0] != v}
                        if free_bvs(val) & others:
                            continue
                        m[("bv", v)] = val
                        m = {k: subst(x, {("bv", v): val}) for k, x in m.items()}
                        todo.remove(b)
                        progress = True
                        break
                if progress:
                    break
                # blocks of c consecutive indices: c*x + y = 0 with |y| < c
                sp = split_eq(e2 - q, {v for v, _, _ in todo}, u.binders)
                if sp is not None and (e, q) not in done:
                    done.append((e, q))
                    k = eqs.index((e, q))
                    eqs[k:k + 1] = [(x, ZERO) for x in sp]
                    progress = True
                    break
        for e, q in eqs:
            e2 = subst(e, m)
            if e2 != q:
                conds.append(eq(e2, q))
        for v, lo, hi in u.binders:
            if ("bv", v) in m:
                x = m[("bv", v)]
                conds.append(ge(x - subst(lo, m), 0))
                conds.append(gt(subst(hi, m) - x, 0))
        conds.append(subst_b(u.guard, m))
        return m, and_(*conds), [b for b in todo], u

    def apply(self, i, j, rest):
        """rest: thunk with the previous element value"""
        m, cond, unsolved, u = self.solve(i, j)
        if cond.is_false():
            return rest()
        val = subst(u.val, m)
        if self.mode == "set":
            if unsolved:
                names = {v for v, _, _ in unsolved}
                if free_bvs(val) & names:
                    # the value written by the last iteration that writes this element
                    w = fn("lw", cond, val)
                    for v, lo, hi in reversed(unsolved):
                        w = sum_(v, subst(lo, m), subst(hi, m), w)
                    val = fn("lastw", w)
                c = cond
                for v, lo, hi in reversed(unsolved):
                    c = exists(v, subst(lo, m), subst(hi, m), c)
                cond = c
            if cond.is_true():
                return val
            return ite(cond, val, rest())
        if self.mode == "add":
            s = val if cond.is_true() else ite(cond, val, ZERO)
            for v, lo, hi in reversed(unsolved):
                s = sum_(v, subst(lo, m), subst(hi, m), s)
            return rest() + s
        if self.mode == "max":
            r = rest()
            if not unsolved:
                if cond.is_true():
                    return maxof([r, val])
                if nonneg(r) and nonneg(val):
                    return maxof([r, ite(cond, val, ZERO)])
                return ite(cond, maxof([r, val]), r)
            s = val if cond.is_true() else ite(cond, val, ZERO)
            for v, lo, hi in reversed(unsolved):
                s = bigmax(v, subst(lo, m), subst(hi, m), s)
            return maxof([r, s])
        raise AssertionError(self.mode)


class T(Val):
    """matrix / vector value: element function + updates"""
    def __init__(self, rows, cols, f=None, name=None, upds=(), meta=None):
        self.rows, self.cols = P(rows), P(cols)
        self.name, self.f, self.upds = name, f, tuple(upds)
        self.meta = meta or {}
        self._c = {}

    @staticmethod
    def base(name, rows, cols, meta=None):
        cols = P(cols)
        if cols == ONE:
            f = lambda i, j: el(name, i)
        elif P(rows) == ONE:
            f = lambda i, j: el(name, j)
        else:
            f = lambda i, j: el(name, i, j)
        return T(rows, cols, f, name=name, meta=meta)

    def at(self, i, j=ZERO):
        i, j = P(i), P(j)
        k = (i, j)
        r = self._c.get(k)
        if r is None:
            r = self._at(i, j, len(self.upds))
            self._c[k] = r
        return r

    def _at(self, i, j, n):
        if n == 0:
            return P(self.f(i, j))
        if n == len(self.upds) and self.prev is not None:
            return self.upds[n - 1].apply(i, j, lambda: self.prev.at(i, j))
        return self.upds[n - 1].apply(i, j, lambda: self._at(i, j, n - 1))

    def with_upd(self, u):
        # full overwrite?
        if u.mode == "set" and u.guard.is_true() and self.covers(u):
            return T(self.rows, self.cols, lambda i, j, u=u: u.apply(i, j, lambda: sym("?oob")), meta=self.meta)
        m = self.meta
        if "word" in m or "op" in m:
            m = {k: v for k, v in m.items() if k not in ("word", "src", "op")}
        r = T(self.rows, self.cols, self.f, self.name, self.upds + (u,), m)
        r.prev = self           # shares the elements already computed
        return r

    prev = None

    def covers(self, u):
        if len(u.binders) > 2 or len({b[0] for b in u.binders}) != len(u.binders):
            return False
        ok = []
        for e, size in ((u.idx[0], self.rows), (u.idx[1], self.cols)):
            if size == ONE and e == ZERO:
                ok.append(True)
                continue
            hit = False
            for v, lo, hi in u.binders:
                if e == bv(v) and lo == ZERO and hi == size:
                    hit = True
            ok.append(hit)
        return all(ok)

    def dims(self):
        return (self.rows, self.cols)

    def map(self, g):
        return T(self.rows, self.cols, lambda i, j: g(self.at(i, j)))

    @property
    def is_vec(self):
        return self.cols == ONE or self.rows == ONE

    def gen(self):
        """generic element (for keys / comparison)"""
        i, j = "gi", "gj"
        tm.RANGES[i] = (ZERO, self.rows)
        tm.RANGES[j] = (ZERO, self.cols)
        return self.at(ZERO if self.rows == ONE else bv(i), ZERO if self.cols == ONE else bv(j))

    def key(self):
        return "%s x %s: %s" % (self.rows.key, self.cols.key, self.gen().key)

    def __repr__(self):
        try:
            return "T(%s,%s; %s)" % (show(self.rows), show(self.cols), show(self.gen(), 120))
        except Exception as e:      # printing only
            return "T(?%s)" % e


def tconst(rows, cols, v):
    v = P(v)
    return T(rows, cols, lambda i, j: v)


def tident(rows, cols):
    return T(rows, cols, lambda i, j: delta(i, j))


def tadd(a, b):
    r, c = _bdims(a, b)
    return T(r, c, lambda i, j: a.at(i, j) + b.at(i, j), meta=pat_of(a, b))


def pat_of(a, b=None):
    """storage pattern of a sum / multiple (only tracked where the sources declare one)"""
    p = a.meta.get("pat")
    if p is None:
        return None
    if b is None:
        return {"pat": p}
    q = b.meta.get("pat")
    return {"pat": p | q} if q is not None else None


def _bdims(a, b):
    # prefer constants / non-opaque dims
    return a.rows, a.cols


def tsub(a, b):
    r, c = _bdims(a, b)
    return T(r, c, lambda i, j: a.at(i, j) - b.at(i, j), meta=pat_of(a, b))


def tscale(s, a):
    return T(a.rows, a.cols, lambda i, j: s * a.at(i, j), meta=pat_of(a))


def tmul(a, b):
    def f(i, j):
        if a.cols == ONE:
            return a.at(i, ZERO) * b.at(ZERO, j)
        k = fresh()
        tm.RANGES[k] = (ZERO, a.cols)
        return sum_(k, ZERO, a.cols, a.at(i, bv(k)) * b.at(bv(k), j))
    return T(a.rows, b.cols, f)


def ttrans(a):
    return T(a.cols, a.rows, lambda i, j: a.at(j, i))


def tcw(a, b, g):
    return T(a.rows, a.cols, lambda i, j: g(a.at(i, j), b.at(i, j)))


def tdiag(v):
    n = v.rows if v.cols == ONE else v.cols
    g = (lambda i: v.at(i, ZERO)) if v.cols == ONE else (lambda i: v.at(ZERO, i))
    return T(n, n, lambda i, j: delta(i, j) * g(i))


def tsum(a, g=lambda x: x):
    if a.cols == ONE:
        k = fresh()
        tm.RANGES[k] = (ZERO, a.rows)
        return sum_(k, ZERO, a.rows, g(a.at(bv(k), ZERO)))
    if a.rows == ONE:
        k = fresh()
        tm.RANGES[k] = (ZERO, a.cols)
        return sum_(k, ZERO, a.cols, g(a.at(ZERO, bv(k))))
    k, l = fresh(), fresh()
    tm.RANGES[k] = (ZERO, a.rows)
    tm.RANGES[l] = (ZERO, a.cols)
    return sum_(k, ZERO, a.rows, sum_(l, ZERO, a.cols, g(a.at(bv(k), bv(l)))))


def tmax(a, g=lambda x: x):
    k, l = fresh(), fresh()
    tm.RANGES[k] = (ZERO, a.rows)
    tm.RANGES[l] = (ZERO, a.cols)
    i = ZERO if a.rows == ONE else bv(k)
    j = ZERO if a.cols == ONE else bv(l)
    r = g(a.at(i, j))
    if a.cols != ONE:
        r = bigmax(l, ZERO, a.cols, r)
    if a.rows != ONE:
        r = bigmax(k, ZERO, a.rows, r)
    return r


def norminf(a):
    return tmax(a, abs_)


def tdot(a, b):
    if a.cols != ONE and a.rows == ONE:
        a = ttrans(a)
    if b.cols != ONE and b.rows == ONE:
        b = ttrans(b)
    k = fresh()
    tm.RANGES[k] = (ZERO, a.rows)
    return sum_(k, ZERO, a.rows, a.at(bv(k)) * b.at(bv(k)))


def tsymU(a):
    """selfadjoint view of the upper triangle"""
    if a.name in tm.SYM_TENSORS and not a.upds:
        return a
    if a.name is not None and not a.upds:
        nm = a.name + "^sU"
        tm.SYM_TENSORS.add(nm)
        return T(a.rows, a.cols, lambda i, j: el(nm, i, j), name=nm)
    return T(a.rows, a.cols, lambda i, j: ite(ge(j - i, 0), a.at(i, j), a.at(j, i)))


def lam(t):
    """whole-tensor argument of an uninterpreted function"""
    i, j = bv("li"), bv("lj")
    return t.at(ZERO if t.rows == ONE else i, ZERO if t.cols == ONE else j)


def tfn(name, rows, cols, args):
    """uninterpreted tensor-valued function application"""
    args = tuple(args)
    def f(i, j):
        if P(cols) == ONE:
            return fn(name, *(args + (i,)))
        if P(rows) == ONE:
            return fn(name, *(args + (j,)))
        return fn(name, *(args + (i, j)))
    return T(rows, cols, f)


def merge(c, a, b, ctx=None):
    """value under condition c: a, else b"""
    if a is b:
        return a
    if c.is_true():
        return a
    if c.is_false():
        return b
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, (int, float)):
        a = P(a)
    if isinstance(b, (int, float)):
        b = P(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        if a == b:
            return a
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, T) and isinstance(b, T):
        return merge_t(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        out = {}
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            if k in a.fields and k in b.fields:
                out[k] = merge(c, a.fields[k], b.fields[k])
            else:
                out[k] = a.fields.get(k, b.fields.get(k))
        return Rec(a.ty, out, a.rec)
    if isinstance(a, Opt) and isinstance(b, Opt):
        ha, hb = a.has, b.has
        if ha.is_false():
            v = b.val
        elif hb.is_false():
            v = a.val
        else:
            v = merge(c, a.val, b.val)
        return Opt(merge(c, ha, hb), v)
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
        return Seq([merge(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, VecV) and isinstance(b, VecV):
        return VecV(ite(c, a.size, b.size), lambda i: merge(c, a.f(i), b.f(i)))
    if isinstance(a, Opq) and isinstance(b, Opq) and a == b:
        return a
    if isinstance(a, StrV) or isinstance(b, StrV):
        if isinstance(a, (StrV, Poly)) and isinstance(b, (StrV, Poly)):
            if isinstance(a, StrV) and isinstance(b, StrV) and a.s == b.s:
                return a
            st = lambda x: x.num() if isinstance(x, StrV) else x
            return ite(c, st(a), st(b))
    if isinstance(a, (UserFn, FuncV)) and type(a) is type(b) and val_equal(a, b):
        return a
    if isinstance(a, RefV) and isinstance(b, RefV) and repr(a.lv) == repr(b.lv):
        return a
    return Opq("merge(%s,%r,%r)" % (c.key[:60], a, b), (c, a, b))


def merge_t(c, a, b):
    # common base: keep update chains with guards
    if a.f is b.f:
        n = 0
        while n < len(a.upds) and n < len(b.upds) and a.upds[n] is b.upds[n]:
            n += 1
        us = list(a.upds[:n])
        for u in a.upds[n:]:
            us.append(Upd(u.binders, u.idx, and_(u.guard, c), u.val, u.mode))
        nc = not_(c)
        for u in b.upds[n:]:
            us.append(Upd(u.binders, u.idx, and_(u.guard, nc), u.val, u.mode))
        return T(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), a.f, a.name, us, merge_meta(c, a, b))
    return T(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda i, j: ite(c, a.at(i, j), b.at(i, j)),
             meta=merge_meta(c, a, b))


def merge_meta(c, a, b):
    out = {}
    for k in set(a.meta) | set(b.meta):
        x, y = a.meta.get(k), b.meta.get(k)
        if x is None or y is None:
            continue
        if isinstance(x, (Bool, Poly)):
            out[k] = merge(c, x, y)
        elif x == y:
            out[k] = x
    return out


def val_equal(a, b):
    """structural equality used to detect modified locations"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Poly, Bool)):
        return a == b
    if isinstance(a, T):
        if a.f is b.f and len(a.upds) == len(b.upds) and all(x is y for x, y in zip(a.upds, b.upds)) \
                and a.rows == b.rows and a.cols == b.cols:
            return all(a.meta.get(k) == b.meta.get(k) for k in set(a.meta) | set(b.meta))
        if a.rows != b.rows or a.cols != b.cols:
            return False
        if any(a.meta.get(k) != b.meta.get(k) for k in set(a.meta) | set(b.meta)):
            return False
        n = len(a.upds)
        if a.f is b.f and len(b.upds) > n and all(x is y for x, y in zip(a.upds, b.upds)) and all(
                u.mode == "add" and u.val != ZERO and not u.guard.is_false() for u in b.upds[n:]):
            return False        # something is added
        return a.gen() == b.gen()
    if isinstance(a, Rec):
        return a.fields.keys() == b.fields.keys() and all(val_equal(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, Opt):
        return a.has == b.has and (a.has.is_false() or val_equal(a.val, b.val))
    if isinstance(a, Seq):
        return len(a.items) == len(b.items) and all(val_equal(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Opq):
        return a == b
    if isinstance(a, Undef):
        return True
    if isinstance(a, RefV):
        return repr(a.lv) == repr(b.lv)
    if isinstance(a, Closure):
        return a.node is b.node and a.caps == b.caps
    if isinstance(a, UserFn):
        return a.name == b.name
    if isinstance(a, FuncV):
        return a.fn is b.fn or a.fn == b.fn
    if isinstance(a, VecV):
        if a.size != b.size:
            return False
        x = bv("gi")
        return val_equal(a.f(x), b.f(x))
    if isinstance(a, StrV):
        return a.s == b.s
    return False
