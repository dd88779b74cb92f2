"""Evaluation of canonical *terms* under concrete interpretations of their symbols.

Used only to confirm a mismatch between two canonical terms: two terms whose normal forms differ are
reported as different functions only when an interpretation of their common symbols separates them
(polynomial-identity style testing of the analysis result; the analysed program is never run)."""
import math
import random
import time
import zlib
import re
from fractions import Fraction
from .terms import *
from . import terms as tm

OPAQUE_FN = ("opq", "loop", "loopelem", "loopdep", "loopidx", "opqT", "bitnot", "op")
OPAQUE_PRED = ("cmp", "has", "loop", "loopdep", "opq", "ptr")
SOLVE = {}              # tensors defined as solutions of linear systems: name -> (matrix, right-hand side)
LOOP_HEAD = re.compile(r"L\d+('\d+)?\.")
LOOP_FREE = False       # obligations about one iteration: the values at its start are any values
MAYBE_INF = set()       # tensor names whose elements may be +-inf: name -> sign handled by suffix


def opaque_names(x):
    """symbols that stand for something the analysis could not resolve"""
    out = set()
    for a in atoms_of(x):
        if a[0] == "fn" and (a[1] in OPAQUE_FN or a[1].startswith(("?", "lib:"))):
            out.add("fn:" + a[1])
        elif a[0] == "pred" and a[1] in OPAQUE_PRED:
            out.add("pred:" + a[1])
        elif a[0] in ("sym", "el", "bsym"):
            n = a[1]
            if n.startswith(("brk.", "stop.", "loopT.", "opq", "vecsize", "loopret", "?", "rows:", "cols:")) or "undef" in n or not LOOP_FREE and LOOP_HEAD.match(n):
                out.add(n)
    return out


def direct_names(x):
    """names occurring in a term itself (not those a computed symbol stands for)"""
    out = set()
    for a in atoms_of(x):
        if a[0] in ("sym", "el", "bsym", "pred"):
            out.add(a[1])
    return out


def direct_names_any(x):
    from .interp import names_of_any
    keep = dict(tm.SYM_DEPS)
    tm.SYM_DEPS.clear()
    try:
        return names_of_any(x)
    finally:
        tm.SYM_DEPS.update(keep)


LI = bv("li")


def all_sizes_two(e, *xs):
    """every size that occurs is at least two under this interpretation"""
    try:
        return all(e.p(P(tm.sym(n, True)), {}) >= 2 for n in sorted(set().union(*[tm.names_of(x) for x in xs]) & tm.SIZE_SYMS))
    except Skip:
        return False


def near(x):
    """a number up to rounding errors: equal arguments of an unknown function computed in different ways"""
    if isinstance(x, int) or x != x or abs(x) == math.inf:
        return "%.9g" % x
    return "%.6g" % (round(x, 6) + 0.0)


SCALAR_FNS = frozenset(("sqrt", "exp", "sin", "cos", "tan", "atan", "floor", "ceil", "log", "pow", "mod", "idiv", "toint"))


class Skip(Exception):
    pass


class Env:
    def __init__(self, seed, dims, inf=(), fixed=None, pools=None):
        self.seed = seed
        self.dims = dims
        self.inf = inf
        self.fixed = fixed or {}
        self.pools = pools or {}
        self.tab = {}
        self.sols = {}
        self.ctr = 0
        self.two = False
        self.mag = 1.0

    def rnd(self, key):
        return random.Random("%s|%s" % (self.seed, key))

    def sample(self, name, r):
        if name in self.fixed:
            v = self.fixed[name]
            return v(r) if callable(v) else v
        if name in tm.POS_SYMS and name in tm.INT_SYMS:
            return r.choice([1, 2, 3, r.randint(1, 6)])
        if name in tm.POS_SYMS:
            return r.choice([0.5, 1.0, 2.0, r.uniform(0.2, 3)])
        if name in tm.INT_SYMS:
            return r.choice([0, 1, 2, 3, r.randint(0, 6)])
        if name in self.inf:
            s = self.inf[name]
            return r.choice([-2.0, -1.0, 0.0, 1.0, 2.0, r.gauss(0, 2), s * math.inf, s * math.inf, -s * math.inf if r.random() < 0.3 else 0.5])
        if name in tm.NONNEG_SYMS:
            return r.choice([0.0, 0.5, 1.0, r.uniform(0, 3)])
        return self.mag * r.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, r.gauss(0, 2), r.gauss(0, 2), r.uniform(-1, 1)])

    def draw(self, name, key):
        v = self.tab.get(key)
        if v is None:
            v = self.tab[key] = self.sample(name, self.rnd(key))
        return v

    # ---- evaluation
    def p(self, x, b):
        s = 0
        for (bn, f), c in x.terms.items():
            s += self.term(bn, f, float(c) if c.denominator != 1 else int(c), b)
        return s

    def term(self, bn, f, c, b):
        if bn:
            v, lo, hi = bn[0]
            l, h = self.int(lo, b), self.int(hi, b)
            if h - l > 40:
                raise Skip()
            s = 0
            for k in range(l, h):
                b2 = dict(b)
                b2[v] = k
                s += self.term(bn[1:], f, c, b2)
            return s
        r = c
        for a, e in f:
            x = self.atom(a, b)
            if e < 0 and x == 0:
                raise Skip()
            if isinstance(x, float) and math.isinf(x) and r == 0:
                raise Skip()
            try:
                r = r * (x ** e if e != 1 else x)
            except OverflowError:
                raise Skip()
        if isinstance(r, float) and math.isnan(r):
            raise Skip()
        return r

    def int(self, x, b):
        v = self.p(x, b)
        if v != v or abs(v) > 1e6:
            raise Skip()
        return int(round(v))

    def atom(self, a, b):
        t = a[0]
        if t == "bv":
            if a[1] not in b:
                raise Skip()
            return b[a[1]]
        if t == "sym":
            if a[1] == "INF":
                return math.inf
            if a[1] in self.dims:
                return self.dims[a[1]]
            return self.draw(a[1], a[1])
        if t == "el":
            ix = tuple(self.int(i, b) for i in a[2])
            if a[1] in tm.SYM_TENSORS and len(ix) == 2 and ix[0] > ix[1]:
                ix = ix[::-1]
            if a[1] in SOLVE:
                return self.solution(a[1], ix)
            if a[1].endswith(("^sU", "^sL")) and len(ix) == 2:
                # the matrix with one triangle mirrored
                ix = (min(ix), max(ix)) if a[1][-1] == "U" else (max(ix), min(ix))
                return self.draw(a[1][:-3], (a[1][:-3],) + ix)
            return self.draw(a[1], (a[1],) + ix)
        if t == "max":
            return max(self.p(q, b) for q in a[1])
        if t == "min":
            return min(self.p(q, b) for q in a[1])
        if t == "abs":
            return abs(self.p(a[1], b))
        if t == "inv":
            x = self.p(a[1], b)
            if x == 0:
                raise Skip()
            return 1.0 / x
        if t == "delta":
            return 1 if self.int(a[1], b) == 0 else 0
        if t == "ite":
            return self.p(a[2], b) if self.b(a[1], b) else self.p(a[3], b)
        if t == "bigmax":
            vals = []

            def go(bs, b):
                if not bs:
                    vals.append(self.p(a[2], b))
                    return
                v, lo, hi = bs[0]
                l, h = self.int(lo, b), self.int(hi, b)
                if h - l > 40:
                    raise Skip()
                for k in range(l, h):
                    b2 = dict(b)
                    b2[v] = k
                    go(bs[1:], b2)
            go(a[1], b)
            return max(vals) if vals else 0
        if t == "fn":
            if a[1] == "lastw":
                return self.lastw(a[2][0], b)
            args = []
            for q in a[2]:
                if isinstance(q, Poly):
                    args.append(self.p(q, b) if a[1] in SCALAR_FNS else self.whole(q, b))
                elif isinstance(q, Bool):
                    args.append(self.b(q, b))
                else:
                    args.append(str(q))
            return self.fnval(a[1], args)
        raise Skip()

    def solution(self, name, ix):
        """element of the solution of a linear system (well conditioned ones only)"""
        x = self.sols.get(name)
        if x is None:
            m, r = SOLVE[name]
            n, c = self.int(m.rows, {}), self.int(r.cols, {})
            if n > 6 or c > 8:
                raise Skip()
            a = [[float(self.p(m.at(i, j), {})) for j in range(n)] + [float(self.p(r.at(i, j), {})) for j in range(c)] for i in range(n)]
            big = max([abs(v) for row in a for v in row[:n]] + [0])
            for q in range(n):
                p = max(range(q, n), key=lambda i: abs(a[i][q]))
                if abs(a[p][q]) < 1e-2 * big or big == 0:
                    raise Skip()
                a[q], a[p] = a[p], a[q]
                for i in range(n):
                    if i != q:
                        f = a[i][q] / a[q][q]
                        a[i] = [u - f * v for u, v in zip(a[i], a[q])]
            x = self.sols[name] = [[a[i][n + j] / a[i][i] for j in range(c)] for i in range(n)]
        return x[ix[0]][ix[1] if len(ix) > 1 else 0]

    def whole(self, q, b):
        """an argument of an unknown function: a number, or a vector or matrix (a function of li, lj) represented
        by its first elements"""
        fb = tm.free_bvs(q)
        if not ("li" in fb or "lj" in fb) or ("li" in b and q == LI):
            return self.p(q, b)
        n = 2 if self.two else 1
        out = []
        for i in range(n if "li" in fb else 1):
            for j in range(n if "lj" in fb else 1):
                out.append(near(self.p(q, dict(b, li=i, lj=j))))
        return "[" + ",".join(out) + "]"

    def lastw(self, w, b):
        """value written by the last iteration whose condition holds"""
        if len(w.terms) != 1:
            raise Skip()
        ((bn, f), c), = w.terms.items()
        if c != 1 or len(f) != 1 or f[0][1] != 1 or f[0][0][0] != "fn" or f[0][0][1] != "lw":
            raise Skip()
        cond, val = f[0][0][2]
        out = [None]

        def go(bs, b):
            if not bs:
                if self.b(cond, b):
                    out[0] = b
                return
            v, lo, hi = bs[0]
            l, h = self.int(lo, b), self.int(hi, b)
            if h - l > 40:
                raise Skip()
            for k in range(l, h):
                b2 = dict(b)
                b2[v] = k
                go(bs[1:], b2)
        go(bn, b)
        if out[0] is None:
            raise Skip()
        return self.p(val, out[0])

    def fnval(self, n, v):
        try:
            if n == "sqrt":
                if v[0] < 0:
                    raise Skip()
                return math.sqrt(v[0])
            if n in ("exp", "sin", "cos", "tan", "atan", "floor", "ceil"):
                return getattr(math, n)(v[0])
            if n == "log":
                if v[0] <= 0:
                    raise Skip()
                return math.log(v[0])
            if n == "pow":
                return v[0] ** v[1]
            if n == "mod":
                if v[1] == 0:
                    raise Skip()
                return math.fmod(v[0], v[1]) if not (isinstance(v[0], int) and isinstance(v[1], int)) else v[0] - v[1] * int(v[0] / v[1])
            if n == "idiv":
                if v[1] == 0:
                    raise Skip()
                return int(v[0] / v[1])
            if n == "toint":
                return int(v[0])
        except (OverflowError, ValueError, TypeError):
            raise Skip()
        key = n + "|" + "|".join(near(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else str(x) for x in v)
        r = self.rnd(key)
        if n in ("info", "count", "nnz") or n in tm.INT_SYMS:
            return r.choice([0, 0, 1, 2])
        return r.gauss(0, 1.5)

    def b(self, x, b):
        k = x.kind
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "gt" or k == "ge":
            v = self.p(x.a, b)
            if v != v:
                # inf - inf: a comparison of two equal infinities
                if len(x.a.terms) != 2 or sorted(x.a.terms.values()) != [-1, 1]:
                    raise Skip()
                v = 0
            if abs(v) < 1e-9 and v != 0:
                # rounding noise next to a tie: not a reliable comparison
                raise Skip()
            return v > 0 if k == "gt" else v >= 0
        if k == "not":
            return not self.b(x.a, b)
        if k == "and":
            return all(self.b(y, b) for y in x.a)
        if k == "or":
            return any(self.b(y, b) for y in x.a)
        if k == "isinf":
            v = self.p(x.a, b)
            return v == x.b * math.inf
        if k == "nz":
            # a stored entry may be zero
            if self.atom(x.a, b) != 0:
                return True
            i = [self.int(q, b) for q in x.a[2]] if x.a[0] == "el" else []
            return self.rnd("NZ|%s|%s" % (x.a[1], i)).random() < 0.4
        if k == "bsym":
            key = "B|" + x.a
            if x.a in self.fixed:
                return bool(self.fixed[x.a])
            v = self.tab.get(key)
            if v is None:
                v = self.tab[key] = self.rnd(key).random() < 0.5
            return v
        if k == "exists":
            def go(bs, b):
                if not bs:
                    return self.b(x.b, b)
                v, lo, hi = bs[0]
                l, h = self.int(lo, b), self.int(hi, b)
                if h - l > 40:
                    raise Skip()
                for t in range(l, h):
                    b2 = dict(b)
                    b2[v] = t
                    if go(bs[1:], b2):
                        return True
                return False
            return go(x.a, b)
        if k == "pred":
            if x.a == "nzval":
                return self.p(x.b[0], b) != 0
            args = [self.p(q, b) if isinstance(q, Poly) else self.b(q, b) if isinstance(q, Bool) else str(q) for q in x.b]
            return self.rnd("P|%s|%s" % (x.a, args)).random() < 0.5
        raise Skip()


def close(u, v):
    if isinstance(u, bool) or isinstance(v, bool):
        return bool(u) == bool(v)
    if u == v:
        return True
    if math.isinf(u) or math.isinf(v):
        return False
    return abs(u - v) <= 1e-7 * max(1.0, abs(u), abs(v))


def separate(x, y, under=None, dims=None, inf=None, gi=None, tries=400, seed=1, fixed=None):
    """an interpretation under which x and y differ (and `under` holds), or None.
    gi: names of generic index variables with their (symbolic) upper bounds"""
    done = 0
    for s in range(tries):
        r = random.Random("%s#%d" % (seed, s))
        d = {k: (r.choice(v) if isinstance(v, (list, tuple)) else v) for k, v in (dims or {}).items()}
        e = Env("%s#%d" % (seed, s), d, inf or {}, fixed)
        if s % 9 == 8:
            e.mag = 1e-9 if s % 2 else 1e6
        try:
            b = {}
            ok = True
            for nm, hi in (gi or {}).items():
                h = e.int(P(hi), b)
                if h <= 0:
                    ok = False
                    break
                b[nm] = r.randrange(h)
            if not ok:
                continue
            e.two = all_sizes_two(e, x, y)
            if under is not None and not e.b(under, b):
                continue
            u = e.b(x, b) if isinstance(x, Bool) else e.p(x, b)
            v = e.b(y, b) if isinstance(y, Bool) else e.p(y, b)
        except (Skip, RecursionError):
            continue
        done += 1
        if isinstance(u, float) and math.isnan(u) or isinstance(v, float) and math.isnan(v):
            continue
        if not close(u, v):
            e.count = done
            return e, b, u, v
    separate.last = done
    return None


def separate_along(x, y, path, under=None, dims=None, inf=None, gi=None, seed=1, fixed=None, secs=4.0):
    """like separate, but searches for an interpretation that follows the differing branch of the
    decision diagrams (hill climbing on the number of satisfied conditions)"""
    lits = list(path)
    if under is not None:
        for c in (under.a if under.kind == "and" else [under]):
            lits.append((c, True))
    t0 = time.time()
    rs = 0
    while time.time() - t0 < secs:
        rs += 1
        r = random.Random("%s@%d" % (seed, rs))
        d = {k: ((v[0] if rs % 3 else r.choice(v)) if isinstance(v, (list, tuple)) else v) for k, v in (dims or {}).items()}
        e = Env("%s@%d" % (seed, rs), d, inf or {}, fixed)
        b = {}
        try:
            for nm, hi in (gi or {}).items():
                h = e.int(P(hi), b)
                if h <= 0:
                    raise Skip()
                b[nm] = r.randrange(h)
        except Skip:
            continue

        def score():
            n = 0
            e.two = all_sizes_two(e, x, y)
            for c, v in lits:
                try:
                    n += e.b(c, b) == v
                except (Skip, RecursionError):
                    pass
            return n

        def differ():
            try:
                # the sizes may have changed since the indices were chosen
                for nm, hi in (gi or {}).items():
                    h = e.int(P(hi), b)
                    if not 0 <= b[nm] < h:
                        return None
                if under is not None and not e.b(under, b):
                    return None
                u = e.b(x, b) if isinstance(x, Bool) else e.p(x, b)
                v = e.b(y, b) if isinstance(y, Bool) else e.p(y, b)
            except (Skip, RecursionError):
                return None
            if isinstance(u, float) and math.isnan(u) or isinstance(v, float) and math.isnan(v):
                return None
            return None if close(u, v) else (e, b, u, v)
        best = score()
        for step in range(400):
            if time.time() - t0 > secs:
                break
            if best >= len(lits) - 1 or step % 10 == 0:
                z = differ()
                if z:
                    return z
            if gi and r.random() < 0.2:
                ob = dict(b)
                nm = r.choice(sorted(gi))
                try:
                    b[nm] = r.randrange(max(1, e.int(P(gi[nm]), b)))
                    e.sols.clear()
                    n = score()
                except (Skip, RecursionError):
                    n = -1
                if n >= best:
                    best = n
                else:
                    b.clear()
                    b.update(ob)
                    e.sols.clear()
                continue
            keys = [k for k in e.tab if not ((k if isinstance(k, str) else k[0]) in e.fixed)]
            if not keys:
                break
            ks = r.sample(keys, min(len(keys), r.choice([1, 1, 1, 2, 3])))
            old = {k: e.tab[k] for k in ks}
            for k in ks:
                if isinstance(k, str) and k.startswith("B|"):
                    e.tab[k] = not e.tab[k]
                    continue
                nm = k if isinstance(k, str) else k[0]
                v = e.sample(nm, r)
                o = e.tab[k]
                if nm not in tm.INT_SYMS and not math.isinf(o) and r.random() < 0.4:
                    v = o * r.choice([0.1, 0.5, 0.9, 1.1, 2, 10]) if nm in tm.POS_SYMS or nm in tm.NONNEG_SYMS or r.random() < 0.5 \
                        else o + r.gauss(0, 0.5)
                elif nm not in tm.INT_SYMS and nm in tm.POS_SYMS | tm.NONNEG_SYMS and r.random() < 0.5:
                    v = r.choice([1e-3, 0.05, 0.3, 5.0, 30.0])
                e.tab[k] = v
            e.sols.clear()
            n = score()
            if n >= best:
                best = n
            else:
                e.tab.update(old)
                e.sols.clear()
    return None


def describe(e, b, lim=14):
    it = []
    for k, v in list(e.tab.items()):
        if isinstance(k, tuple):
            it.append("%s(%s)=%s" % (k[0], ",".join(map(str, k[1:])), fmt(v)))
        else:
            it.append("%s=%s" % (k.replace("B|", ""), fmt(v)))
    it.sort()
    s = ", ".join("%s=%s" % x for x in sorted(e.dims.items()))
    if b:
        s += ", index " + ",".join("%s=%s" % x for x in sorted(b.items()))
    return s + "; " + ", ".join(it[:lim]) + (", ..." if len(it) > lim else "")


def fmt(v):
    return "%.4g" % v if isinstance(v, float) else str(v)
