"""Decision diagrams over the atomic conditions of canonical terms: equality of nested conditionals
without enumerating their cases."""
import time
from .terms import *
from . import terms as tm


class Budget(Exception):
    pass


class DD:
    def __init__(self, limit=60000, secs=20):
        self.vars = {}          # key -> index
        self.atoms = []         # index -> Bool
        self.uniq = {}
        self.memo = {}
        self.fm = {}
        self.limit = limit
        self.end = time.time() + secs
        self.T = ("L", True)
        self.F = ("L", False)
        self.leafval = {}

    def leaf(self, p):
        k = ("L", p.key)
        self.leafval[k] = p
        return k

    def mk(self, v, lo, hi):
        if lo is hi or lo == hi:
            return lo
        k = (v, id(lo) if not isinstance(lo[0], str) else lo, id(hi) if not isinstance(hi[0], str) else hi)
        r = self.uniq.get(k)
        if r is None:
            if len(self.uniq) > self.limit or time.time() > self.end:
                raise Budget()
            r = self.uniq[k] = (v, lo, hi)
        return r

    def var(self, b):
        i = self.vars.get(b.key)
        if i is None:
            i = self.vars[b.key] = len(self.atoms)
            self.atoms.append(b)
        return self.mk(i, self.F, self.T)

    @staticmethod
    def top(n):
        return n[0] if not isinstance(n[0], str) else 1 << 60

    def ite(self, f, g, h):
        if f == self.T:
            return g
        if f == self.F:
            return h
        if g is h or g == h and isinstance(g[0], str):
            return g
        if g == self.T and h == self.F:
            return f
        k = (id(f), id(g) if not isinstance(g[0], str) else g, id(h) if not isinstance(h[0], str) else h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.top(f), self.top(g), self.top(h))

        def co(n, b):
            if self.top(n) != v:
                return n
            return n[2] if b else n[1]
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def b(self, x):
        r = self.fm.get(x.key)
        if r is not None:
            return r
        k = x.kind
        if k == "T":
            return self.T
        if k == "F":
            return self.F
        if k == "not":
            r = self.ite(self.b(x.a), self.F, self.T)
        elif k == "and":
            r = self.T
            for y in x.a:
                r = self.ite(self.b(y), r, self.F)
        elif k == "or":
            r = self.F
            for y in x.a:
                r = self.ite(self.b(y), self.T, r)
        elif k in ("ge", "gt"):
            r = self.cmp(x)
        else:
            r = self.var(x)
        self.fm[x.key] = r
        return r

    def top_ite(self, p):
        best = None
        for (bn, f), c in p.terms.items():
            if bn:
                continue
            for a, e in f:
                if a[0] == "ite":
                    return a
                if a[0] in ("max", "min", "abs", "inv"):
                    for q in (a[1] if a[0] in ("max", "min") else (a[1],)):
                        z = self.top_ite(q)
                        if z is not None:
                            return z
        return best

    def cmp(self, x, depth=0):
        mkb = ge if x.kind == "ge" else gt
        a = self.top_ite(x.a)
        if a is None or depth > 12:
            return self.var(x)
        pt = subst(x.a, {a: a[2]})
        pf = subst(x.a, {a: a[3]})
        bt, bf = mkb(pt, 0), mkb(pf, 0)

        def go(y):
            if y.kind in ("ge", "gt"):
                return self.cmp(y, depth + 1)
            return self.b(y)
        return self.ite(self.b(a[1]), go(bt), go(bf))

    def p(self, x, depth=0):
        k = "P" + x.key
        r = self.fm.get(k)
        if r is not None:
            return r
        a = self.top_ite(x)
        if a is None or depth > 40:
            r = self.leaf(x)
        else:
            r = self.ite(self.b(a[1]), self.p(subst(x, {a: a[2]}), depth + 1), self.p(subst(x, {a: a[3]}), depth + 1))
        self.fm[k] = r
        return r

    # ---- differing paths
    def differ(self, x, y, limit=400):
        """None when x and y denote the same function; else a consistent path (list of (Bool, value))
        and the two leaves"""
        cnt = [0]

        def rec(a, b, path):
            if a is b or (isinstance(a[0], str) and a == b):
                return None
            if time.time() > self.end:
                raise Budget()
            v = min(self.top(a), self.top(b))
            if v == 1 << 60:
                cnt[0] += 1
                if cnt[0] > limit:
                    raise Budget()
                pa, pb = self.leafval.get(a), self.leafval.get(b)
                if pa is not None and pb is not None and pa.key != pb.key:
                    d = tm.clear(pa - pb)
                    if d == ZERO:
                        return None
                    # entries that are not stored are zero
                    for lit, val in path:
                        if not val and lit.kind == "pred" and lit.a == "nzval" and isinstance(lit.b[0], Poly):
                            at = single_atom(lit.b[0])
                            if at is not None:
                                d = subst(d, {at: ZERO})
                    if d == ZERO:
                        return None
                return (list(path), a, b)
            for val in (1, 0):
                na = a[1 + val] if self.top(a) == v else a
                nb = b[1 + val] if self.top(b) == v else b
                path.append((self.atoms[v], bool(val)))
                if consistent(path):
                    r = rec(na, nb, path)
                    if r:
                        return r
                else:
                    cnt[0] += 1
                    if cnt[0] > 20 * limit:
                        raise Budget()
                path.pop()
            return None
        return rec(x, y, [])


def single_atom(p):
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b and len(f) == 1 and f[0][1] == 1:
            return f[0][0]
    return None


_lin = {}


def linform(b):
    """comparison as (form key, sign, bound): sign*form >= / > bound"""
    r = _lin.get(b.key)
    if r is None:
        p = b.a
        c = p.terms.get(((), ()), 0)
        q = p - P(c)
        k = q.key
        nk = (-q).key
        if nk < k:
            r = (nk, -1, -c, b.kind == "gt")
        else:
            r = (k, 1, -c, b.kind == "gt")
        _lin[b.key] = r
    return r


def consistent(path):
    """interval reasoning for the last literal of a path"""
    b, v = path[-1]
    if b.kind == "isinf":
        if v:
            for b2, v2 in path[:-1]:
                if v2 and b2.kind == "isinf" and b2.a == b.a and b2.b != b.b:
                    return False
        return True
    if b.kind == "exists":
        return exists_consistent(path)
    if b.kind not in ("ge", "gt"):
        return True
    k = linform(b)[0]
    lo, los, hi, his = None, False, None, False
    isint = b.a.is_int()
    for b2, v2 in path:
        if b2.kind not in ("ge", "gt"):
            continue
        k2, s, c, strict = linform(b2)
        if k2 != k:
            continue
        # s*form >(=) c   or negated: s*form <(=) c
        if not v2:
            strict = not strict
        up = (s > 0) == v2       # lower bound on form?
        c = c if s > 0 else -c
        if up:
            if lo is None or c > lo or (c == lo and strict):
                lo, los = c, strict
        else:
            if hi is None or c < hi or (c == hi and strict):
                hi, his = c, strict
    if lo is None or hi is None:
        return True
    if isint:
        import math
        l2 = math.floor(lo) + 1 if los else math.ceil(lo)
        h2 = math.ceil(hi) - 1 if his else math.floor(hi)
        return l2 <= h2
    return lo < hi or (lo == hi and not los and not his)


_exc = {}


def exists_consistent(path):
    """some element satisfies each true EXISTS and none of the false ones over the same range"""
    ex = [(b, v) for b, v in path if b.kind == "exists" and len(b.a) == 1]
    b0, v0 = path[-1]
    if len(b0.a) != 1:
        return True

    def rng(b):
        return b.a[0][1].key + "|" + b.a[0][2].key

    def body(b):
        v = b.a[0][0]
        return subst_b(b.b, {("bv", v): bv("xe")}) if v != "xe" else b.b
    grp = [(b, v) for b, v in ex if rng(b) == rng(b0)]
    neg = [b for b, v in grp if not v]
    pos = [b for b, v in grp if v] if not v0 else [b0]
    if not neg:
        return True
    for t in pos:
        key = (t.key, tuple(sorted(x.key for x in neg)))
        r = _exc.get(key)
        if r is None:
            try:
                w = and_(body(t), *[not_(body(x)) for x in neg])
                # the element may only be constrained through the other literals of the path
                r = _exc[key] = equal(w, FALSE, secs=3) is not True
            except (Budget, RecursionError):
                r = _exc[key] = True
        if not r:
            return False
    return True


def equal(x, y, under=None, secs=20):
    """True: same function (where `under` holds); else (path, x-leaf, y-leaf); raises Budget"""
    if x == y:
        return True
    d = DD(secs=secs)
    x, y = gnorm(x), gnorm(y)
    f = d.b if isinstance(x, Bool) else d.p
    a, b = f(x), f(y)
    if under is not None and not under.is_true():
        u = d.b(gnorm(under))
        z = d.F
        a, b = d.ite(u, a, z), d.ite(u, b, z)
    r = d.differ(a, b)
    if r is None:
        return True
    path, p, q = r
    return path, d.leafval.get(p, p[1]), d.leafval.get(q, q[1])


# ------------------------------------------------------------------ canonical guarded sums

def in_range(x, binders):
    """x simplified by the ranges of its bound variables"""
    fr = x.free() if isinstance(x, Bool) else tm.free_bvs(x)
    for v, lo, hi in binders:
        if v in fr:
            for q in (bv(v) - lo, hi - bv(v) - 1):
                x = tm.assume(x, Bool("ge", q), True)
    return x


class GNorm:
    """SUM_v ite-trees rewritten as sums of monomials with reduced, ordered 0/1 guards"""

    def __init__(self):
        self.mp = {}
        self.mb = {}

    def b(self, x):
        k = x.kind
        if k in ("T", "F", "bsym", "isinf", "nz"):
            return x
        r = self.mb.get(x.key)
        if r is not None:
            return r
        if k == "not":
            r = not_(self.b(x.a))
        elif k in ("and", "or"):
            r = units((and_ if k == "and" else or_)(*[self.b(y) for y in x.a]))
        elif k in ("gt", "ge"):
            y = self.p(x.a)
            r = x if y == x.a else gt(y, 0) if k == "gt" else ge(y, 0)
        elif k == "exists":
            y = self.b(in_range(x.b, x.a))
            r = x
            if y != x.b:
                r = y
                for v, lo, hi in reversed(x.a):
                    r = exists_f(v, lo, hi, r)
        else:
            r = x
        self.mb[x.key] = r
        return r

    def at(self, a):
        t = a[0]
        if t == "ite":
            c = self.b(a[1])
            if c.is_true() or c.is_false():
                return self.p(a[2] if c.is_true() else a[3])
            return ite(c, self.p(tm.assume_all(a[2], c)), self.p(tm.assume_all(a[3], not_(c))))
        if t == "max":
            return maxof([self.p(y) for y in a[1]])
        if t == "min":
            return minof([self.p(y) for y in a[1]])
        if t == "abs":
            return abs_(self.p(a[1]))
        if t == "inv":
            return inv(self.p(a[1]))
        if t == "fn":
            return fn(a[1], *[self.p(y) if isinstance(y, Poly) else y for y in a[2]])
        if t == "bigmax":
            y = self.p(in_range(a[2], a[1]))
            if y == a[2]:
                return from_atom(a)
            for v, lo, hi in reversed(a[1]):
                y = bigmax_f(v, lo, hi, y)
            return y
        return from_atom(a)

    def p(self, x):
        if tm.mask(x) & tm.ITEBIT != tm.ITEBIT:
            return x
        r = self.mp.get(x.key)
        if r is not None:
            return r
        out = ZERO
        groups = {}
        for (bn, f), c in x.terms.items():
            prod = P(c)
            for a, e in f:
                q = from_atom(a)
                prod = prod * tm._pow_poly(self.p(in_range(q, bn)) if bn else self.at(a), e)
            if not bn:
                out = out + prod
                continue
            if len(bn) > 1 or tm.mask(prod) & tm.ITEBIT != tm.ITEBIT:
                for v, lo, hi in reversed(bn):
                    n = fresh()
                    prod = sum_(n, lo, hi, subst(prod, {("bv", v): bv(n)}))
                out = out + prod
                continue
            v, lo, hi = bn[0]
            at = split_point(prod, v, lo, hi)
            if at is not None:
                n1, n2 = fresh(), fresh()
                tm.RANGES[n1], tm.RANGES[n2] = (lo, at), (ZERO, hi - at)
                out = out + self.p(sum_(n1, lo, at, in_range(subst(prod, {("bv", v): bv(n1)}), [(n1, lo, at)]))) \
                    + self.p(sum_(n2, ZERO, hi - at, in_range(subst(prod, {("bv", v): bv(n2) + at}), [(n2, ZERO, hi - at)])))
                continue
            g = groups.setdefault((lo.key, hi.key), [lo, hi, ZERO])
            g[2] = g[2] + subst(prod, {("bv", v): bv("gs0")})
        for lo, hi, body in groups.values():
            n = fresh()
            # the guarded bodies may also contain plain sums over the same range: harmless
            out = out + sum_(n, lo, hi, subst(self.guarded(body), {("bv", "gs0"): bv(n)}))
        self.mp[x.key] = out
        return out

    def guarded(self, body):
        items = {}

        def expand(p, conds, depth=0):
            for (bn, f), c in p.terms.items():
                i = next((k for k, (a, e) in enumerate(f) if a[0] == "ite" and e == 1), None) if not bn else None
                if i is None or depth > 8:
                    m = Poly({(bn, f): Fraction(1)})
                    items.setdefault(m.key, (m, []))[1].append((and_(*conds), c))
                    continue
                a = f[i][0]
                rest = Poly({(bn, f[:i] + f[i + 1:]): c})
                expand(rest * a[2], conds + [a[1]], depth + 1)
                expand(rest * a[3], conds + [not_(a[1])], depth + 1)
        expand(body, [])
        conds = {}
        for m, l in items.values():
            for g, c in l:
                cond_vars(g, conds)
        order = sorted(conds)
        out = ZERO
        for k in sorted(items):
            m, l = items[k]
            if len(l) == 1 and l[0][0].is_true():
                out = out + m * l[0][1]
                continue
            t = self.tree(l, order, conds)
            c = lead(t)
            if c not in (0, 1):
                t = self.tree([(g, d / c) for g, d in l], order, conds)
                m = m * c
            out = out + m * t
        return out

    def tree(self, l, order, conds):
        """ite tree over the ordered conditions of sum_i c_i [g_i]"""
        if all(g.is_true() or g.is_false() for g, c in l):
            return P(sum((c for g, c in l if g.is_true()), Fraction(0)))
        for i, k in enumerate(order):
            used = any(k in cond_vars(g, {}) for g, c in l)
            if used:
                t = self.tree([(fix(g, k, True), c) for g, c in l], order[i + 1:], conds)
                f = self.tree([(fix(g, k, False), c) for g, c in l], order[i + 1:], conds)
                return t if t == f else tm.from_atom(("ite", conds[k], t, f))
        return P(sum((c for g, c in l if g.is_true()), Fraction(0)))


def split_point(body, v, lo, hi):
    """a constant strictly inside the summation range where a guard of the body switches"""
    conds = {}
    for a in tm.atoms_of(body):
        if a[0] == "ite":
            cond_vars(a[1], conds)
    for k in sorted(conds):
        g = conds[k]
        if g.kind != "ge":
            continue
        r = tm.affine_in(g.a, v)
        if not r or abs(r[0]) != 1 or tm.free_bvs(r[1]) - {v}:
            continue
        at = -r[1] if r[0] == 1 else r[1] + 1
        if tm.free_bvs(at) or at == lo or at == hi:
            continue
        if tm.prove_ge0(at - lo) and tm.prove_ge0(hi - at):
            return at
    return None


def lead(t):
    c = t.const()
    if c is not None:
        return c
    (k, _), = t.terms.items()
    a = k[1][0][0]
    return lead(a[2]) or lead(a[3])


def cond_vars(g, out):
    if g.kind in ("and", "or"):
        for x in g.a:
            cond_vars(x, out)
    elif g.kind == "not":
        cond_vars(g.a, out)
    elif g.kind not in ("T", "F"):
        out[g.key] = g
    return out


def fix(g, k, v):
    if g.kind == "and":
        return and_(*[fix(x, k, v) for x in g.a])
    if g.kind == "or":
        return or_(*[fix(x, k, v) for x in g.a])
    if g.kind == "not":
        return not_(fix(g.a, k, v))
    if g.key == k:
        return TRUE if v else FALSE
    return g


def units(x):
    """literals of a conjunction (disjunction) propagated into its other parts"""
    for _ in range(4):
        if x.kind not in ("and", "or"):
            return x
        val = x.kind == "and"
        out = list(x.a)
        for l in x.a:
            if l.kind in ("and", "or") or (l.kind == "not" and l.a.kind in ("and", "or")):
                continue
            k, v = (l.a.key, not val) if l.kind == "not" else (l.key, val)
            out = [y if y == l else fix(y, k, v) for y in out]
        y = (and_ if val else or_)(*out)
        if y == x:
            return x
        x = y
    return x


def gnorm(x):
    g = GNorm()
    return g.b(x) if isinstance(x, Bool) else g.p(x)
