"""Value-number terms used by the abstract interpreter.

A scalar value is a `Poly`: a canonical sum of  coeff * SUM_{binders} PRODUCT factors , i.e. the
index-notation normal form of (piecewise) polynomial linear algebra.  A condition is a `Bool`
over sign atoms.  Two program expressions that are equal by ring / index-notation algebra get the
same canonical form, whatever loop, helper function or Eigen expression produced them.
"""
from fractions import Fraction
import itertools

_fresh = itertools.count(1)


def fresh(prefix="b"):
    return "%s%d" % (prefix, next(_fresh))


INT_SYMS = set()        # names of integer-valued symbols / tensors
POS_SYMS = set()        # names of strictly positive symbols / tensors
NONNEG_SYMS = set()     # non-negative
FINITE_SYMS = set()     # never infinite
SYM_TENSORS = set()     # symmetric two-index tensors


import zlib
import hashlib


def _short(s):
    """bounded-length structural key: long keys are replaced by a digest"""
    if len(s) > 160:
        return "#" + hashlib.md5(s.encode()).hexdigest()
    return s


def _bit(s):
    h = zlib.crc32(s.encode())
    return (1 << (h % 509)) | (1 << (h // 509 % 509))


ITEBIT = _bit("<ite>")
MAXBIT = _bit("<max>")
_mkc = {}


def mask(x):
    """bloom mask of everything occurring in x (used to prune substitutions)"""
    if isinstance(x, Poly):
        m = x._mask
        if m is None:
            m = 0
            for (b, f), _ in x.terms.items():
                for v, lo, hi in b:
                    m |= mask(lo) | mask(hi) | _bit("bv:" + v)
                for a, e in f:
                    m |= mask(a)
            x._mask = m
        return m
    if isinstance(x, Bool):
        m = x._mask
        if m is None:
            k = x.kind
            m = ITEBIT
            if k in ("gt", "ge", "isinf", "nz", "not"):
                m |= mask(x.a)
            elif k in ("and", "or"):
                for y in x.a:
                    m |= mask(y)
            elif k == "exists":
                m |= mask(x.b)
                for v, lo, hi in x.a:
                    m |= mask(lo) | mask(hi) | _bit("bv:" + v)
            elif k == "bsym":
                m |= _bit("B:" + x.a)
            elif k == "pred":
                for y in x.b:
                    if isinstance(y, (Poly, Bool)):
                        m |= mask(y)
            x._mask = m
        return m
    if not isinstance(x, tuple):
        return 0
    m = _mkc.get(x)
    if m is not None:
        return m
    t = x[0]
    if t == "bv":
        m = _bit("bv:" + x[1])
    else:
        m = abit(x)
        if t == "el":
            m |= _bit("T:" + x[1])
            for p in x[2]:
                m |= mask(p)
        elif t in ("max", "min"):
            m |= MAXBIT
            for p in x[1]:
                m |= mask(p)
        elif t in ("abs", "inv", "delta"):
            m |= mask(x[1])
        elif t == "fn":
            for p in x[2]:
                m |= mask(p)
        elif t == "ite":
            m |= ITEBIT | mask(x[1]) | mask(x[2]) | mask(x[3])
        elif t == "bigmax":
            m |= mask(x[2])
            for v, lo, hi in x[1]:
                m |= mask(lo) | mask(hi) | _bit("bv:" + v)
    _mkc[x] = m
    return m


def abit(a):
    return _bit("bv:" + a[1]) if a[0] == "bv" else _bit("a:" + akey(a))


class Poly:
    __slots__ = ("terms", "_key", "_hash", "_int", "_mask", "_dep")

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._hash = None
        self._int = None
        self._mask = None
        self._dep = None

    # --- identity
    @property
    def key(self):
        if self._key is None:
            parts = []
            for (b, f), c in self.terms.items():
                parts.append((_tkey(b, f), c))
            parts.sort()
            self._key = _short("(" + "+".join("%s*%s" % (c, k) if k else str(c) for k, c in parts) + ")")
        return self._key

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __repr__(self):
        return show(self)

    # --- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.terms:
            return o
        if not o.terms:
            return self
        t = dict(self.terms)
        for k, c in o.terms.items():
            n = t.get(k, 0) + c
            if n == 0:
                t.pop(k, None)
            else:
                t[k] = n
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        c = self.const()
        if c is not None:
            return Poly({k: c * v for k, v in o.terms.items()})
        c = o.const()
        if c is not None:
            return Poly({k: c * v for k, v in self.terms.items()})
        out = ZERO
        acc = {}
        for (b1, f1), c1 in self.terms.items():
            for (b2, f2), c2 in o.terms.items():
                if b1 and b2:
                    # rename binders of the second apart
                    b2r, f2r = _freshen(b2, f2)
                    b1r, f1r = _freshen(b1, f1)
                    r = _mkterm(b1r + b2r, _mulf(f1r, f2r), c1 * c2, acc)
                elif b1 or b2:
                    bb, bf, of = (b1, f1, f2) if b1 else (b2, f2, f1)
                    br, fr = _freshen(bb, bf)
                    _mkterm(br, _mulf(fr, of), c1 * c2, acc)
                else:
                    _mkterm((), _mulf(f1, f2), c1 * c2, acc)
        return Poly(acc)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def const(self):
        """the Fraction value if constant, else None"""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            (k, c), = self.terms.items()
            if k == ((), ()):
                return c
        return None

    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(e > 0 and atom_is_int(a) for a, e in f)
                            for (b, f), c in self.terms.items())
        return self._int


def _tkey(b, f):
    s = ""
    if b:
        s += "S[" + ",".join("%s:%s:%s" % (v, lo.key, hi.key) for v, lo, hi in b) + "]"
    return s + "*".join(akey(a) if e == 1 else "%s^%d" % (akey(a), e) for a, e in f)


_akc = {}


def akey(a):
    k = _akc.get(a)
    if k is not None:
        return k
    t = a[0]
    if t in ("sym", "bv"):
        k = a[1]
    elif t == "el":
        k = a[1] + "[" + ",".join(p.key for p in a[2]) + "]"
    elif t in ("max", "min"):
        k = t + "{" + ";".join(p.key for p in a[1]) + "}"
    elif t in ("abs", "inv", "delta"):
        k = t + a[1].key
    elif t == "fn":
        k = a[1] + "<" + ";".join(x.key if hasattr(x, "key") else str(x) for x in a[2]) + ">"
    elif t == "ite":
        k = "ite{" + a[1].key + "?" + a[2].key + ":" + a[3].key + "}"
    elif t == "bigmax":
        k = "MAX[" + ",".join("%s:%s:%s" % (v, lo.key, hi.key) for v, lo, hi in a[1]) + "]" + a[2].key
    else:
        k = repr(a)
    k = _short(k)
    _akc[a] = k
    return k


def atom_is_int(a):
    t = a[0]
    if t == "bv":
        return True
    if t in ("sym", "el"):
        return a[1] in INT_SYMS
    if t in ("max", "min"):
        return all(p.is_int() for p in a[1])
    if t == "abs":
        return a[1].is_int()
    if t == "delta":
        return True
    if t == "ite":
        return a[2].is_int() and a[3].is_int()
    if t == "fn":
        return a[1] in ("mod", "idiv", "toint", "count") or a[1] in INT_SYMS
    return False


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, Bool):
        return ite(x, ONE, ZERO)
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return Poly({((), ()): x}) if x else ZERO
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == -float("inf"):
            return -INF
        return P(Fraction(x))
    raise TypeError("not a scalar: %r" % (x,))


def from_atom(a, e=1):
    return Poly({((), ((a, e),)): Fraction(1)})


ZERO = Poly({})
ONE = Poly({((), ()): Fraction(1)})
INF = from_atom(("sym", "INF"))


def sym(name, integer=False):
    if integer:
        INT_SYMS.add(name)
    return from_atom(("sym", name))


def bv(name):
    return from_atom(("bv", name))


def el(name, *idx):
    idx = tuple(P(i) for i in idx)
    if name in SYM_TENSORS and len(idx) == 2 and idx[1].key < idx[0].key:
        idx = (idx[1], idx[0])
    return from_atom(("el", name, idx))


def _mulf(f1, f2):
    if not f1:
        return f2
    if not f2:
        return f1
    d = dict(f1)
    for a, e in f2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a)
        else:
            d[a] = n
    out = []
    for a, e in d.items():
        if a[0] == "delta":
            e = 1  # idempotent
        out.append((a, e))
    out.sort(key=lambda ae: akey(ae[0]))
    return tuple(out)


def _freshen(b, f):
    m = {}
    nb = []
    for v, lo, hi in b:
        n = fresh()
        m[("bv", v)] = bv(n)
        nb.append((n, lo, hi))
    nb = [(n, subst(lo, m), subst(hi, m)) for n, lo, hi in nb]
    nf = ()
    coef = Fraction(1)
    for a, e in f:
        p = subst_atom(a, m)
        # renaming maps an atom onto an atom
        (k, c), = p.terms.items()
        assert c == 1 and not k[0] and len(k[1]) == 1, (a, p)
        nf = _mulf(nf, ((k[1][0][0], e),))
    return tuple(nb), nf


def _has_bv(x, v):
    return v in free_bvs(x)


_fbc = {}


def free_bvs(x):
    """free bound-variable names of Poly / Bool / atom"""
    if isinstance(x, Poly):
        c = _fbc.get(x)
        if c is None:
            s = set()
            for (b, f), _ in x.terms.items():
                t = set()
                for a, e in f:
                    t |= free_bvs(a)
                for v, lo, hi in reversed(b):
                    t.discard(v)
                    t |= free_bvs(lo)
                    t |= free_bvs(hi)
                s |= t
            c = frozenset(s)
            _fbc[x] = c
        return c
    if isinstance(x, Bool):
        return x.free()
    t = x[0]
    if t == "bv":
        return frozenset((x[1],))
    if t == "sym":
        return frozenset()
    c = _fbc.get(x)
    if c is not None:
        return c
    s = set()
    if t == "el":
        for p in x[2]:
            s |= free_bvs(p)
    elif t in ("max", "min"):
        for p in x[1]:
            s |= free_bvs(p)
    elif t in ("abs", "inv", "delta"):
        s |= free_bvs(x[1])
    elif t == "fn":
        for p in x[2]:
            if isinstance(p, (Poly, Bool)):
                s |= free_bvs(p)
    elif t == "ite":
        s |= x[1].free() | free_bvs(x[2]) | free_bvs(x[3])
    elif t == "bigmax":
        s |= free_bvs(x[2])
        for v, lo, hi in reversed(x[1]):
            s.discard(v)
            s |= free_bvs(lo)
            s |= free_bvs(hi)
    c = frozenset(s)
    _fbc[x] = c
    return c


def affine_in(p, v):
    """p = a*v + rest with constant a and v not in rest -> (a, rest) else None"""
    a = Fraction(0)
    rest = {}
    for (b, f), c in p.terms.items():
        if b == () and f == ((("bv", v), 1),):
            a += c
        else:
            if any(v in free_bvs(x) for x, e in f) or any(v in free_bvs(lo) or v in free_bvs(hi) for _, lo, hi in b):
                return None
            rest[(b, f)] = c
    return a, Poly(rest)


def _mkterm(binders, factors, coeff, acc):
    """add coeff*SUM_{binders} factors to acc (dict), with delta elimination and canonicalization.
    binder names must be fresh (not canonical)."""
    binders = list(binders)
    changed = True
    while changed:
        changed = False
        for a, e in factors:
            if a[0] == "delta":
                c = a[1].const()
                if c is not None:
                    if c != 0:
                        return
                    factors = tuple(x for x in factors if x[0] != a)
                    changed = True
                    break
                for i, (v, lo, hi) in enumerate(binders):
                    r = affine_in(a[1], v)
                    if r and abs(r[0]) == 1:
                        val = -r[1] * r[0]
                        if any(v in free_bvs(l2) or v in free_bvs(h2) for _, l2, h2 in binders):
                            continue
                        m = {("bv", v): val}
                        nb = binders[:i] + binders[i + 1:]
                        rest = ONE
                        for a2, e2 in factors:
                            if a2 == a:
                                continue
                            rest = rest * _pow_poly(subst_atom(a2, m), e2)
                        # range guard lo <= val < hi
                        g = and_(ge(val - lo, 0), gt(hi - val, 0))
                        if _range_implied(val, lo, hi, binders):
                            g = TRUE
                        body = rest if g.is_true() else ite(g, rest, ZERO)
                        out = body * coeff
                        for (b2, f2), c2 in out.terms.items():
                            br, fr = _freshen(b2, f2) if b2 else ((), f2)
                            _mkterm(tuple(nb) + br, fr, c2, acc)
                        return
    if binders:
        # numeric lifting: a factor that is an ite with condition free of binders stays a factor
        used = set()
        for a, e in factors:
            used |= free_bvs(a)
        nb = []
        mult = ONE
        # drop unused binders: multiply by range length
        need = set(used)
        for v, lo, hi in reversed(binders):
            if v in need:
                nb.append((v, lo, hi))
                need |= free_bvs(lo) | free_bvs(hi)
            else:
                mult = mult * (hi - lo)
        nb.reverse()
        # pull out factors without binders
        bn = {v for v, _, _ in nb}
        if not nb:
            r = mult * Poly({((), factors): Fraction(coeff)})
            for k, c in r.terms.items():
                _acc(acc, k, c)
            return
        if mult != ONE:
            r = Poly({})
            sub = {}
            _mkterm(tuple(nb), factors, coeff, sub)
            r = Poly(sub) * mult
            for k, c in r.terms.items():
                _acc(acc, k, c)
            return
        k = _canon_binders(nb, factors)
        _acc(acc, k, coeff)
        return
    _acc(acc, ((), factors), coeff)


# assumptions about free index variables: name -> (lo, hi)
RANGES = {}


def _range_implied(val, lo, hi, binders):
    ctx = {v: (l, h) for v, l, h in binders}
    return prove_ge0(val - lo, ctx) and prove_ge0(hi - val - 1, ctx)


SIZE_SYMS = set()   # non-negative integer sizes


def prove_ge0(p, ctx=None, depth=0):
    """conservative: True only if p >= 0 follows from the variable ranges"""
    c = p.const()
    if c is not None:
        return c >= 0
    if depth > 6:
        return False
    # all-nonneg terms
    def atom_nonneg(a):
        if a[0] == "bv":
            r = (ctx or {}).get(a[1]) or RANGES.get(a[1])
            return bool(r) and prove_ge0(r[0], ctx, depth + 1)
        if a[0] in ("sym", "el"):
            return a[1] in SIZE_SYMS or a[1] in NONNEG_SYMS or a[1] in POS_SYMS
        if a[0] == "abs":
            return True
        if a[0] == "max":
            return any(prove_ge0(q, ctx, depth + 1) for q in a[1])
        if a[0] == "ite":
            return prove_ge0(a[2], ctx, depth + 1) and prove_ge0(a[3], ctx, depth + 1)
        return False
    ok = True
    for (b, f), c in p.terms.items():
        if c < 0 or not all(atom_nonneg(a) for a, e in f):
            ok = False
            break
    if ok:
        return True
    # substitute the worst case of one index variable
    for v in sorted(free_bvs(p)):
        r = (ctx or {}).get(v) or RANGES.get(v)
        if not r:
            continue
        af = affine_in(p, v)
        if not af:
            continue
        a, rest = af
        w = rest + (a * r[0] if a > 0 else a * (r[1] - 1))
        if v in free_bvs(w):
            continue
        if prove_ge0(w, ctx, depth + 1):
            return True
    return False


def _acc(acc, k, c):
    n = acc.get(k, 0) + c
    if n == 0:
        acc.pop(k, None)
    else:
        acc[k] = n


def _depth(x):
    """max canonical binder depth occurring inside"""
    if isinstance(x, Poly):
        if x._dep is not None:
            return x._dep
        d = 0
        for (b, f), _ in x.terms.items():
            for v, lo, hi in b:
                if v[0] == "k":
                    d = max(d, int(v[1:]))
                d = max(d, _depth(lo), _depth(hi))
            for a, e in f:
                d = max(d, _depth(a))
        x._dep = d
        return d
    if isinstance(x, Bool):
        if x._dep is None:
            x._dep = x.depth()
        return x._dep
    t = x[0]
    if t in ("bv", "sym"):
        return 0
    r = _dpc.get(x)
    if r is None:
        r = _dpc[x] = _depth_a(x, t)
    return r


_dpc = {}


def _depth_a(x, t):
    if t == "el":
        return max((_depth(p) for p in x[2]), default=0)
    if t in ("max", "min"):
        return max((_depth(p) for p in x[1]), default=0)
    if t in ("abs", "inv", "delta"):
        return _depth(x[1])
    if t == "fn":
        return max((_depth(p) for p in x[2] if isinstance(p, (Poly, Bool))), default=0)
    if t == "ite":
        return max(x[1].depth(), _depth(x[2]), _depth(x[3]))
    if t == "bigmax":
        d = _depth(x[2])
        for v, lo, hi in x[1]:
            if v[0] == "k":
                d = max(d, int(v[1:]))
            d = max(d, _depth(lo), _depth(hi))
        return d
    return 0


def _kfree(*xs):
    """largest canonical binder name occurring free: a new binder must not capture it"""
    d = 0
    for x in xs:
        for v in free_bvs(x):
            if v[0] == "k" and v[1:].isdigit():
                d = max(d, int(v[1:]))
    return d


def _canon_binders(nb, factors):
    base = max([max(_depth(a), _kfree(a)) for a, e in factors] +
               [max(_depth(lo), _depth(hi), _kfree(lo, hi)) for _, lo, hi in nb] + [0])
    best = None
    n = len(nb)
    perms = itertools.permutations(range(n)) if n <= 5 else [tuple(range(n))]
    dep = any(free_bvs(lo) & {v for v, _, _ in nb} or free_bvs(hi) & {v for v, _, _ in nb} for _, lo, hi in nb)
    for pm in perms:
        m = {}
        names = []
        for pos, i in enumerate(pm):
            nm = "k%d" % (base + 1 + pos)
            m[("bv", nb[i][0])] = bv(nm)
        bs = tuple(("k%d" % (base + 1 + pos), subst(nb[i][1], m), subst(nb[i][2], m)) for pos, i in enumerate(pm))
        if dep:
            # binder bounds may only refer to binders that come earlier
            seen = set()
            okk = True
            mine = {x[0] for x in bs}
            for v, lo, hi in bs:
                if ((free_bvs(lo) | free_bvs(hi)) & mine) - seen:
                    okk = False
                    break
                seen.add(v)
            if not okk:
                continue
        fs = ()
        for a, e in factors:
            p = subst_atom(a, m)
            (k, c), = p.terms.items()
            fs = _mulf(fs, ((k[1][0][0], e),))
        kk = _tkey(bs, fs)
        if best is None or kk < best[0]:
            best = (kk, bs, fs)
    return (best[1], best[2])


def sum_(v, lo, hi, body):
    """SUM_{v in [lo,hi)} body ; v is a fresh bound variable name"""
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n is not None and n <= 0:
        return ZERO
    if n == 1:
        return subst(body, {("bv", v): lo})
    acc = {}
    for (b, f), c in body.terms.items():
        br, fr = _freshen(b, f) if b else ((), f)
        _mkterm(((v, lo, hi),) + br, fr, c, acc)
    return Poly(acc)


def delta(i, j):
    d = P(i) - P(j)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    # canonical sign
    if _lead_neg(d):
        d = -d
    if prove_ge0(d - 1) or prove_ge0(-d - 1):
        return ZERO
    return from_atom(("delta", d))


def _lead_neg(p):
    items = sorted(((_tkey(b, f), c) for (b, f), c in p.terms.items()))
    for k, c in items:
        if k:
            return c < 0
    return bool(items) and items[0][1] < 0


# ------------------------------------------------------------------------------- functions

def inv(p):
    p = P(p)
    c = p.const()
    if c is not None:
        if c == 0:
            return from_atom(("inv", ZERO))
        return P(1 / c)
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b:
            r = P(1 / c)
            for a, e in f:
                r = r * _pow_atom(a, -e)
            return r
    # normalise leading coefficient
    k0 = min(p.terms, key=lambda k: _tkey(*k))
    c0 = p.terms[k0]
    return from_atom(("inv", p * P(1 / c0))) * P(1 / c0)


def _pow_atom(a, e):
    if a[0] == "inv" and e < 0:
        return a[1] ** (-e)
    if a[0] == "fn" and a[1] == "sqrt" and e % 2 == 0:
        q = a[2][0] if e > 0 else inv(a[2][0])
        return q ** (abs(e) // 2)
    if a[0] == "sym" and a[1] == "INF" and e < 0:
        return ZERO
    if a[0] == "ite":
        if e < 0:
            return ite(a[1], inv(a[2]) ** (-e), inv(a[3]) ** (-e))
    return Poly({((), ((a, e),)): Fraction(1)})


def _pow_poly(p, e):
    return p ** e if e > 0 else inv(p) ** (-e)


def abs_(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(abs(c))
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b:
            r = P(abs(c))
            for a, e in f:
                if atom_nonneg_always(a) or e % 2 == 0:
                    r = r * _pow_atom(a, e)
                else:
                    q = from_atom(("abs", from_atom(a)))
                    r = r * (q ** e if e > 0 else inv(q) ** (-e))
            return r
    if _lead_neg(p):
        p = -p
    return from_atom(("abs", p))


def atom_nonneg_always(a):
    t = a[0]
    if t in ("sym", "el"):
        return a[1] in POS_SYMS or a[1] in NONNEG_SYMS or a[1] in SIZE_SYMS or a[1] == "INF"
    if t == "abs" or t == "delta":
        return True
    if t == "fn":
        return a[1] in ("sqrt", "exp")
    if t == "max":
        return any(nonneg(q) for q in a[1])
    if t == "min":
        return all(nonneg(q) for q in a[1])
    if t == "bigmax":
        return nonneg(a[2])
    if t == "ite":
        return nonneg(a[2]) and nonneg(a[3])
    if t == "inv":
        return nonneg(a[1])
    return False


def nonneg(p):
    return all(c > 0 and all(atom_nonneg_always(a) or (e % 2 == 0) for a, e in f) for (b, f), c in p.terms.items())


def positive(p):
    """strictly positive (terms all non-negative, at least one strictly positive)"""
    if not p.terms or not nonneg(p):
        return False
    for (b, f), c in p.terms.items():
        if not b and all(atom_pos(a) for a, e in f):
            return True
    return False


def atom_pos(a):
    t = a[0]
    if t in ("sym", "el"):
        return a[1] in POS_SYMS or a[1] == "INF"
    if t == "max":
        return any(positive(q) for q in a[1])
    if t == "min":
        return all(positive(q) for q in a[1])
    if t == "fn":
        if a[1] == "exp":
            return True
        return a[1] == "sqrt" and positive(a[2][0])
    if t == "ite":
        return positive(a[2]) and positive(a[3])
    if t == "inv":
        return positive(a[1])
    if t == "abs":
        return positive(a[1])
    return False


def maxof(args):
    return _ext("max", args)


def minof(args):
    return _ext("min", args)


def _ext(kind, args):
    flat = []
    for p in args:
        p = P(p)
        if len(p.terms) == 1:
            ((b, f), c), = p.terms.items()
            if not b and c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0][0] == kind:
                flat.extend(f[0][0][1])
                continue
        flat.append(p)
    cs = [p.const() for p in flat if p.const() is not None]
    out = []
    seen = set()
    for p in flat:
        if p.const() is not None:
            continue
        if p.key in seen:
            continue
        seen.add(p.key)
        out.append(p)
    if kind == "max" and any(p == INF for p in out):
        return INF
    if kind == "min" and any(p == -INF for p in out):
        return -INF
    if kind == "max":
        out = [p for p in out if p != -INF]
    if kind == "min":
        out = [p for p in out if p != INF]
    if cs:
        c = max(cs) if kind == "max" else min(cs)
        drop = False
        if kind == "max" and out and c <= 0 and any(nonneg(p) for p in out):
            drop = True
        if not drop:
            out.append(P(c))
    if len(out) == 1:
        return out[0]
    if not out:
        return P(cs[0])
    out.sort(key=lambda p: p.key)
    return from_atom((kind, tuple(out)))


def bigmax(v, lo, hi, body):
    """MAX_{v in [lo,hi)} body (0 for an empty range)"""
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n == 1:
        return subst(body, {("bv", v): lo})
    if v not in free_bvs(body):
        return body
    binders = [(v, lo, hi)]
    # merge nested
    if len(body.terms) == 1:
        ((b, f), c), = body.terms.items()
        if not b and c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0][0] == "bigmax":
            a = f[0][0]
            m = {}
            nb = []
            for vv, l2, h2 in a[1]:
                n2 = fresh()
                m[("bv", vv)] = bv(n2)
                nb.append((n2, l2, h2))
            nb = [(n2, subst(l2, m), subst(h2, m)) for n2, l2, h2 in nb]
            binders += nb
            body = subst(a[2], m)
        elif not b and len(f) == 1 and f[0][1] == 1 and c == 1 and f[0][0][0] == "max":
            # max distributes
            return maxof([bigmax_f(v, lo, hi, q) for q in f[0][0][1]])
    return _mkbigmax(binders, body)


def bigmax_f(v, lo, hi, body):
    w = fresh()
    return bigmax(w, lo, hi, subst(body, {("bv", v): bv(w)}))


def _mkbigmax(binders, body):
    # positive factor without binders can be pulled out
    names = {v for v, _, _ in binders}
    if len(body.terms) == 1:
        ((b, f), c), = body.terms.items()
        if not b and c > 0:
            out = ONE
            rest = ()
            for a, e in f:
                if not (free_bvs(a) & names) and atom_nonneg_always(a):
                    out = out * _pow_atom(a, e)
                else:
                    rest = rest + ((a, e),)
            if out != ONE or c != 1:
                if not rest:
                    return body
                return out * c * _mkbigmax(binders, Poly({((), rest): Fraction(1)}))
    base = max(_depth(body), _kfree(body), max(max(_depth(lo), _depth(hi), _kfree(lo, hi)) for _, lo, hi in binders))
    best = None
    for pm in itertools.permutations(range(len(binders))):
        m = {("bv", binders[i][0]): bv("k%d" % (base + 1 + pos)) for pos, i in enumerate(pm)}
        bs = tuple(("k%d" % (base + 1 + pos), subst(binders[i][1], m), subst(binders[i][2], m)) for pos, i in enumerate(pm))
        bd = subst(body, m)
        a = ("bigmax", bs, bd)
        k = akey(a)
        if best is None or k < best[0]:
            best = (k, a)
    return from_atom(best[1])


def fn(name, *args):
    if name == "sqrt":
        p = P(args[0])
        c = p.const()
        if c is not None and c >= 0:
            import math
            r = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                return P(Fraction(r[0], r[1]))
        if len(p.terms) == 1:
            ((b, f), c), = p.terms.items()
            if not b and f and all(e < 0 for a, e in f) and c == 1:
                return inv(fn("sqrt", inv(p)))
    if name == "mod":
        a, b = P(args[0]), P(args[1])
        ca, cb = a.const(), b.const()
        if cb == 1:
            return ZERO
        r = _mod_range(a, cb)
        if r is not None:
            return r
        if ca is not None and cb not in (None, 0):
            return P(ca - cb * (ca // cb))
    if name == "idiv":
        a, b = P(args[0]), P(args[1])
        ca, cb = a.const(), b.const()
        if cb == 1:
            return a
        if ca is not None and cb not in (None, 0):
            return P(int(ca / cb))
    if name == "toint":
        p = P(args[0])
        if p.is_int():
            return p
    if name in ("exp",) and P(args[0]) == ZERO:
        return ONE
    return from_atom(("fn", name, tuple(P(a) if isinstance(a, (int, float, Fraction)) else a for a in args)))


def _bv_nonneg(a):
    if a[0] != "bv":
        return False
    lo = RANGES.get(a[1], (None, None))[0]
    return lo is not None and lo.const() is not None and lo.const() >= 0


def _mod_range(a, cb):
    """cb*k + r with k >= 0 and a generic index r < cb: r"""
    if cb is None or cb <= 1 or cb.denominator != 1:
        return None
    rest = Poly({})
    for (b, f), c in a.terms.items():
        if c % cb == 0 and c >= 0 and not b and Poly({(b, f): Fraction(1)}).is_int() and all(e > 0 and (atom_nonneg_always(a) or _bv_nonneg(a)) for a, e in f):
            continue
        rest = rest + Poly({(b, f): c})
    if len(rest.terms) == 1:
        ((b, f), c), = rest.terms.items()
        if not b and c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0][0] == "bv":
            lo, hi = RANGES.get(f[0][0][1], (None, None))
            if lo == ZERO and hi is not None and hi.const() is not None and hi.const() <= cb:
                return rest
    return None


def ite(c, a, b):
    c = B(c)
    if c.is_true():
        return P(a)
    if c.is_false():
        return P(b)
    a, b = P(a), P(b)
    if a == b:
        return a
    if c.kind == "not":
        c, a, b = c.a, b, a
    # 0-homogeneous under nz: ite(nz(M,i,j), X, 0) = X when X vanishes with M(i,j)
    if c.kind == "nz" and b == ZERO and vanishes_with(a, c.a):
        return a
    # an entry that is not stored is zero
    if c.kind == "nz" and b != ZERO and vanishes_with(b, c.a):
        return ite(c, a, ZERO)
    if c.kind == "and" and b == ZERO and any(x.kind == "nz" for x in c.a):
        keep = [x for x in c.a if not (x.kind == "nz" and vanishes_with(a, x.a))]
        if len(keep) < len(c.a):
            return ite(and_(*keep), a, b)
    if b == ZERO and len(a.terms) == 1:
        ((b2, f2), c2), = a.terms.items()
        if not b2 and len(f2) == 1 and f2[0][1] == 1 and f2[0][0][0] == "ite" and f2[0][0][3] == ZERO:
            return ite(and_(c, f2[0][0][1]), f2[0][0][2] * P(c2), ZERO)
    # a value that is not stored is zero: so is every multiple of it
    if b == ZERO and c.kind == "pred" and c.a == "nzval" and multiple_of(a, c.b[0]):
        return a
    if b == ZERO and c.kind == "and" and any(x.kind == "pred" and x.a == "nzval" for x in c.a):
        keep = [x for x in c.a if not (x.kind == "pred" and x.a == "nzval" and multiple_of(a, x.b[0]))]
        if len(keep) < len(c.a):
            return ite(and_(*keep), a, b)
    # abs / max patterns
    if c.kind in ("gt", "ge"):
        p = c.a
        if p == a - b:
            return maxof([a, b])
        if p == b - a:
            return minof([a, b])
    return from_atom(("ite", c, a, b))


def multiple_of(p, v):
    """p == k*v for some factor k"""
    v = P(v)
    if len(p.terms) != len(v.terms) or not v.terms:
        return False
    if p == v or p == -v:
        return True
    ((b, f), c) = next(iter(p.terms.items()))
    bound = {x[0] for x in b}
    k = ONE
    vf = {f2 for (b2, f2) in v.terms} if len(v.terms) == 1 else set()
    base = next(iter(vf)) if vf else ()
    rest = dict(base)
    for a, e in f:
        if a in rest and not (free_bvs(from_atom(a)) & bound):
            e = e - rest[a]
        if e and not (free_bvs(from_atom(a)) & bound) and (a in rest or not b or not _in_factors(a, v)):
            k = k * from_atom(a, e)
    q = v * k
    if len(q.terms) != len(p.terms):
        return False
    for t, c2 in q.terms.items():
        if t not in p.terms:
            return False
        r = p.terms[t] / c2
        return p == q * P(r)
    return False


def _in_factors(a, v):
    return any(a == x for (b, f) in v.terms for x, e in f)


def vanishes_with(p, ref):
    """every term of p contains the atom el(ref) as a factor"""
    def f_ok(a):
        if a == ref:
            return True
        if a[0] == "abs":
            return p_ok(a[1])
        if a[0] == "ite":
            return p_ok(a[2]) and p_ok(a[3])
        if a[0] == "el" and a[1] in SYM_TENSORS and ref[0] == "el" and ref[1] == a[1]:
            return a[2] == ref[2] or a[2] == ref[2][::-1]
        return False

    def p_ok(q):
        return all(any(e > 0 and f_ok(a) for a, e in f) for (b, f), c in q.terms.items())
    return p_ok(p)


# ------------------------------------------------------------------------------- booleans

class Bool:
    __slots__ = ("kind", "a", "b", "_key", "_free", "_mask", "_dep", "_neg")

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b
        self._key = None
        self._neg = None
        self._free = None
        self._mask = None
        self._dep = None

    @property
    def key(self):
        if self._key is None:
            k = self.kind
            if k in ("T", "F"):
                s = k
            elif k in ("gt", "ge"):
                s = k + self.a.key
            elif k == "bsym":
                s = "?" + self.a
            elif k == "isinf":
                s = "inf%+d%s" % (self.b, self.a.key)
            elif k == "nz":
                s = "nz{" + akey(self.a) + "}"
            elif k == "not":
                s = "!" + self.a.key
            elif k in ("and", "or"):
                s = k + "(" + ",".join(x.key for x in self.a) + ")"
            elif k == "exists":
                s = "E[" + ",".join("%s:%s:%s" % (v, lo.key, hi.key) for v, lo, hi in self.a) + "]" + self.b.key
            elif k == "pred":
                s = "p:" + self.a + "<" + ";".join(x.key if hasattr(x, "key") else str(x) for x in self.b) + ">"
            else:
                s = repr((k, self.a, self.b))
            self._key = _short(s)
        return self._key

    def __eq__(self, o):
        return isinstance(o, Bool) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)

    def is_true(self):
        return self.kind == "T"

    def is_false(self):
        return self.kind == "F"

    def free(self):
        if self._free is None:
            k = self.kind
            if k in ("gt", "ge", "isinf"):
                s = free_bvs(self.a)
            elif k == "nz":
                s = free_bvs(self.a)
            elif k == "not":
                s = self.a.free()
            elif k in ("and", "or"):
                s = frozenset().union(*[x.free() for x in self.a])
            elif k == "exists":
                s = set(self.b.free())
                for v, lo, hi in reversed(self.a):
                    s.discard(v)
                    s |= free_bvs(lo) | free_bvs(hi)
                s = frozenset(s)
            elif k == "pred":
                s = frozenset().union(*[free_bvs(x) for x in self.b if isinstance(x, (Poly, Bool))]) if self.b else frozenset()
            else:
                s = frozenset()
            self._free = s
        return self._free

    def depth(self):
        k = self.kind
        if k in ("gt", "ge", "isinf", "nz"):
            return _depth(self.a)
        if k == "not":
            return self.a.depth()
        if k in ("and", "or"):
            return max(x.depth() for x in self.a)
        if k == "exists":
            d = self.b.depth()
            for v, lo, hi in self.a:
                if v[0] == "k":
                    d = max(d, int(v[1:]))
            return d
        if k == "pred":
            return max((_depth(x) for x in self.b if isinstance(x, (Poly, Bool))), default=0)
        return 0


TRUE = Bool("T")
FALSE = Bool("F")


def B(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        return ne(x, 0)
    raise TypeError("not a condition: %r" % (x,))


def bsym(n):
    return Bool("bsym", n)


def pred(name, *args):
    return Bool("pred", name, tuple(args))


def nz(atom):
    return Bool("nz", atom)


def nz_p(q):
    if len(q.terms) == 1:
        ((bb, f), c), = q.terms.items()
        if not bb and len(f) == 1:
            a = f[0][0]
            if a[0] == "ite":
                return or_(and_(a[1], nz_p(a[2])), and_(not_(a[1]), nz_p(a[3])))
            return Bool("nz", a)
    if q == ZERO:
        return FALSE
    return ne(q, 0)


def not_(b):
    b = B(b)
    k = b.kind
    if k == "T":
        return FALSE
    if k == "F":
        return TRUE
    if k == "not":
        return b.a
    r = b._neg
    if r is not None:
        return r
    if k == "and":
        r = or_(*[not_(x) for x in b.a])
    elif k == "or":
        r = and_(*[not_(x) for x in b.a])
    else:
        return Bool("not", b)
    b._neg = r
    if r._neg is None and r.kind in ("and", "or"):
        r._neg = b
    return r


def _nary(kind, args):
    unit, absorb = ("T", "F") if kind == "and" else ("F", "T")
    out = {}
    for x in args:
        x = B(x)
        if x.kind == absorb:
            return x
        if x.kind == unit:
            continue
        for y in (x.a if x.kind == kind else (x,)):
            out[y.key] = y
    for y in list(out.values()):
        if not_(y).key in out:
            return FALSE if kind == "and" else TRUE
    if not out:
        return TRUE if kind == "and" else FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    # absorption: x and (x or y) = x
    dual = "or" if kind == "and" else "and"
    ys = list(out.values())
    keep = []
    for y in ys:
        if y.kind == dual and any(z.key in out for z in y.a):
            continue
        keep.append(y)
    if len(keep) == 1:
        return keep[0]
    return Bool(kind, tuple(sorted(keep, key=lambda y: y.key)))


def and_(*a):
    return _nary("and", a)


def or_(*a):
    return _nary("or", a)


def gt(p, q=0):
    return _cmp(P(p) - P(q) if not _infcmp(p, q) else None, True, p, q)


def ge(p, q=0):
    return _cmp(P(p) - P(q) if not _infcmp(p, q) else None, False, p, q)


def lt(p, q):
    return gt(q, p)


def le(p, q):
    return ge(q, p)


def eq(p, q=0):
    p, q = P(p), P(q)
    if p == q:
        return TRUE
    if _is_inf(p) and _is_inf(q):
        return FALSE
    if _is_inf(q):
        return isinf(p, 1 if q == INF else -1)
    if _is_inf(p):
        return isinf(q, 1 if p == INF else -1)
    d = p - q
    # case split on ite so that enum-valued decision trees simplify
    r = _case_cmp(d, lambda x: eq(x, 0))
    if r is not None:
        return r
    return and_(ge(d, 0), ge(-d, 0))


def ne(p, q=0):
    return not_(eq(p, q))


def _is_inf(p):
    return p == INF or p == -INF


def _infcmp(p, q):
    return False


def isinf(p, s):
    """p == s*inf"""
    p = P(p)
    if p == INF:
        return TRUE if s > 0 else FALSE
    if p == -INF:
        return TRUE if s < 0 else FALSE
    if p.const() is not None:
        return FALSE
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b and len(f) == 1 and f[0][1] == 1:
            a = f[0][0]
            if c < 0:
                return isinf(-p, -s)
            if a[0] in ("sym", "el") and a[1] in FINITE_SYMS:
                return FALSE
            if a[0] == "ite":
                return or_(and_(a[1], isinf(a[2] * c, s)), and_(not_(a[1]), isinf(a[3] * c, s)))
            if a[0] == "fn" and a[1] in ("mod", "count"):
                return FALSE
            if a[0] == "bv":
                return FALSE
    # strip strictly positive finite factors
    if len(p.terms) == 1:
        ((b, f), c), = p.terms.items()
        if not b:
            rest = [(a, e) for a, e in f if not (atom_pos(a) and not (a[0] == "sym" and a[1] == "INF"))]
            if len(rest) < len(f):
                return isinf(Poly({((), tuple(rest)): Fraction(1 if c > 0 else -1)}), s)
    if p.is_int():
        return FALSE
    return Bool("isinf", p, s)


def _sole_ite(d):
    for (b, f), c in d.terms.items():
        for a, e in f:
            if a[0] == "ite":
                return a
    return None


def small_ites(d, limit=6):
    """few enough distinct top-level conditions to distribute a comparison over them"""
    cs = {}
    n = [0]

    def go(p):
        for (b, f), c in p.terms.items():
            for a, e in f:
                if a[0] == "ite":
                    n[0] += 1
                    if n[0] > 12:
                        return
                    _bool_atoms(a[1], cs)
                    go(a[2])
                    go(a[3])
    go(d)
    return n[0] <= 12 and (len(cs) <= 3 or all_const_leaves(d))


def all_const_leaves(d):
    def ok(p, depth):
        if depth > 40:
            return False
        for (b, f), c in p.terms.items():
            if not f and not b:
                continue
            if b or len(f) != 1 or f[0][0][0] != "ite":
                return False
            a = f[0][0]
            if not ok(a[2], depth + 1) or not ok(a[3], depth + 1):
                return False
        return True
    return len(d.terms) <= 2 and ok(d, 0)


def _case_cmp(d, k):
    """if d contains a top-level ite atom, distribute the comparison over it"""
    a = None
    for (b, f), c in d.terms.items():
        if b:
            continue
        for x, e in f:
            if x[0] == "ite":
                a = x
                break
        if a:
            break
    if a is None:
        return None
    if not small_ites(d):
        return None
    dt = subst(d, {a: a[2]})
    df = subst(d, {a: a[3]})
    return or_(and_(a[1], k(dt)), and_(not_(a[1]), k(df)))


def _cmp(d, strict, p=None, q=None):
    """d > 0 (strict) or d >= 0"""
    p, q = P(p), P(q)
    # infinities
    if _is_inf(p) or _is_inf(q):
        if _is_inf(p) and _is_inf(q):
            if p == q:
                return FALSE if strict else TRUE
            return TRUE if p == INF else FALSE
        if _is_inf(p):
            if p == INF:   # inf > q  /  inf >= q
                return not_(isinf(q, 1)) if strict else TRUE
            return FALSE if strict else isinf(q, -1)
        if q == INF:
            return FALSE if strict else isinf(p, 1)
        return not_(isinf(p, -1)) if strict else TRUE
    c = d.const()
    if c is not None:
        return B(c > 0 if strict else c >= 0)
    # INF inside a sum dominates finite terms
    ci = None
    others = []
    for (b, f), cc in d.terms.items():
        if any(a == ("sym", "INF") for a, e in f):
            if ci is None and not b:
                r = Fraction(cc)
                ok = all(a == ("sym", "INF") or atom_pos(a) for a, e in f)
                ci = r if ok else "?"
            else:
                ci = "?"
        else:
            others.append(((b, f), cc))
    if ci is not None and ci != "?":
        if all(all(_finite_atom(a) for a, e in f) for (b, f), cc in others):
            return B(ci > 0)
    r = _case_cmp(d, (lambda x: gt(x, 0)) if strict else (lambda x: ge(x, 0)))
    if r is not None:
        return r
    # split max/min (top level, not under a binder)
    for (b, f), cc in d.terms.items():
        if not b and len(f) == 1 and f[0][1] == 1 and f[0][0][0] in ("max", "min"):
            a = f[0][0]
            rest = Poly({k: v for k, v in d.terms.items() if k != (b, f)})
            ismax = (a[0] == "max") == (cc > 0)
            parts = [_cmp(cc * x + rest, strict, cc * x + rest, ZERO) for x in a[1]]
            return or_(*parts) if ismax else and_(*parts)
    # strip positive factors common to all terms
    d = _strip_pos(d)
    if d.is_int() and strict:
        d = d - 1
        strict = False
    c = d.const()
    if c is not None:
        return B(c > 0 if strict else c >= 0)
    if not d.is_int():
        if strict and positive(d):
            return TRUE
        if not strict and nonneg(d):
            return TRUE
        if strict and nonneg(-d):
            return FALSE
        if not strict and positive(-d):
            return FALSE
    if prove_ge0(d if not strict else ZERO - ONE):
        return TRUE
    if d.is_int():
        if prove_ge0(-d - 1):
            return FALSE
    # canonical: scale so that leading coefficient is +1 / -1
    k0 = min((k for k in d.terms if k != ((), ())), key=lambda k: _tkey(*k))
    s = d.terms[k0]
    isint = d.is_int()
    if isint:
        if s < 0:
            # d >= 0  <=> not (-d > 0) <=> not(-d-1 >= 0)
            return not_(_mkge(-d - 1))
        return _mkge(d)
    d = d * P(1 / abs(s))
    if s < 0:
        # d > 0  <=> not (-d >= 0)
        return not_(Bool("ge" if strict else "gt", -d))
    return Bool("gt" if strict else "ge", d)


def _mkge(d):
    return Bool("ge", d)


MAYBE_INF = {"INF", "pbm.l", "pbm.u"}


def _finite_p(p):
    return all(all(_finite_atom(x) for x, e in f) for (b, f), c in p.terms.items())


def _finite_atom(a):
    """standing assumption: problem data (except bounds), parameters and iterates are finite numbers"""
    t = a[0]
    if t in ("bv", "delta"):
        return True
    if t in ("sym", "el"):
        n = a[1]
        return n in FINITE_SYMS or n in INT_SYMS or (n not in MAYBE_INF and (
            n.startswith(("let.", "this.", "pbm.", "ws.")) or (n[0] == "L" and n[1:2].isdigit())))
    if t in ("abs", "inv"):
        return _finite_p(a[1])
    if t in ("max", "min"):
        return all(_finite_p(q) for q in a[1])
    if t == "bigmax":
        return _finite_p(a[2])
    if t == "ite":
        return _finite_p(a[2]) and _finite_p(a[3])
    if t == "fn" and a[1] in ("sqrt", "mod", "idiv"):
        return all(_finite_p(q) for q in a[2] if isinstance(q, Poly))
    return False


def _strip_pos(d):
    if not d.terms:
        return d
    common = None
    for (b, f), c in d.terms.items():
        fs = {a: e for a, e in f if atom_pos(a)}
        if b:
            fs = {a: e for a, e in fs.items() if not (free_bvs(a) & {v for v, _, _ in b})}
        if common is None:
            common = fs
        else:
            common = {a: min(e, fs[a]) if e > 0 else max(e, fs[a]) for a, e in common.items() if a in fs and (e > 0) == (fs[a] > 0)}
        if not common:
            break
    # clear denominators made of positive atoms
    den = {}
    for (b, f), c in d.terms.items():
        for a, e in f:
            if e < 0 and atom_pos(a) and not (b and free_bvs(a) & {v for v, _, _ in b}):
                den[a] = max(den.get(a, 0), -e)
    out = d
    for a, e in (common or {}).items():
        if e > 0:
            out = out * _pow_atom(a, -e)
    den2 = {}
    for (b, f), c in out.terms.items():
        for a, e in f:
            if e < 0 and atom_pos(a) and not (b and free_bvs(a) & {v for v, _, _ in b}):
                den2[a] = max(den2.get(a, 0), -e)
    for a, e in den2.items():
        out = out * _pow_atom(a, e)
    return out


def exists(v, lo, hi, b):
    b = B(b)
    lo, hi = P(lo), P(hi)
    if b.is_false():
        return FALSE
    if v not in b.free():
        # non-empty range assumed only if provable
        if b.is_true():
            return gt(hi - lo, 0)
        return and_(b, gt(hi - lo, 0))
    if b.kind == "or":
        return or_(*[exists_f(v, lo, hi, x) for x in b.a])
    if b.kind == "and":
        ins = [x for x in b.a if v in x.free()]
        outs = [x for x in b.a if v not in x.free()]
        if outs:
            return and_(*(outs + [exists_f(v, lo, hi, and_(*ins))]))
    n = (hi - lo).const()
    if n == 1:
        return subst_b(b, {("bv", v): lo})
    r = _tiling(v, lo, hi, b)
    if r is not None:
        return r
    if _never(b, {v: (lo, hi)}):
        return FALSE
    base = max(b.depth(), _depth(lo), _depth(hi), _kfree(b, lo, hi))
    nm = "k%d" % (base + 1)
    return Bool("exists", ((nm, lo, hi),), subst_b(b, {("bv", v): bv(nm)}))


def _lin(p, v):
    """(r, c) with p = r + c*v, c a constant; or None"""
    a = {("bv", v): ZERO}
    r = subst(p, a)
    c = (subst(p, {("bv", v): ONE}) - r).const()
    return None if c is None or r + bv(v) * c != p else (r, c)


def _never(b, ctx):
    """true only if b cannot hold for indices in these ranges"""
    while b.kind == "exists" and len(b.a) == 1:
        (v, lo, hi), b = b.a[0], b.b
        if v in ctx:
            return False
        ctx = dict(ctx)
        ctx[v] = (lo, hi)
    xs = b.b if b.kind == "and" and isinstance(b.b, (tuple, list)) else b.a if b.kind == "and" else (b,)

    def refuted(c):
        return any(x.kind == "ge" and prove_ge0(-x.a - 1, c) or x.kind == "not" and x.a.kind == "ge" and prove_ge0(x.a.a, c) for x in xs)
    if refuted(ctx):
        return True
    # bounds among the conditions themselves
    c2 = dict(ctx)
    for x in xs:
        if x.kind != "ge":
            continue
        for v in ctx:
            l = _lin(x.a, v)
            if l and not free_bvs(l[0]) & set(ctx) and l[1] in (1, -1):
                c2[v] = (c2[v][0], l[0] + 1) if l[1] == -1 else (-l[0], c2[v][1])
    return c2 != ctx and refuted(c2)


def _tiling(v, lo, hi, b):
    """blocks of c consecutive indices: EXISTS v, w: i = w + c*v with 0 <= w < c"""
    if b.kind != "exists" or len(b.a) != 1 or b.b.kind != "and" or len(b.b.a) != 2:
        return None
    (w, lo2, hi2), e = b.a[0], None
    if w == v or v in free_bvs(lo2) or v in free_bvs(hi2):
        return None
    for p, q in (b.b.a, b.b.a[::-1]):
        # i = w + c*v as two inequalities between integers
        if p.kind == "ge" and q.kind == "not" and q.a.kind == "ge" and p.a - 1 == q.a.a:
            e = p.a
    if e is None:
        return None
    lv = _lin(e, v)
    lw = lv and _lin(lv[0], w)
    if not lw:
        return None
    r, cv, cw = lw[0], lv[1], lw[1]
    if cw > 0:
        r, cv, cw = -r, -cv, -cw
    if v in free_bvs(r) or w in free_bvs(r):
        return None
    if cw == -1 and cv < 0 and lo2 == ZERO and hi2 == P(-cv):
        c, a, z = -cv, lo, hi
    elif cv == -1 and cw < 0 and lo == ZERO and hi == P(-cw):
        c, a, z = -cw, lo2, hi2
    else:
        return None
    return and_(ge(r - a * c, 0), not_(ge(r - z * c, 0)))


def exists_f(v, lo, hi, b):
    w = fresh()
    return exists(w, lo, hi, subst_b(b, {("bv", v): bv(w)}))


def forall(v, lo, hi, b):
    return not_(exists(v, lo, hi, not_(b)))


# ------------------------------------------------------------------------------- substitution

class TSub(dict):
    """substitution: atoms -> Poly ; .tens: tensor name -> callable(idx tuple)->Poly ;
    .bools: bsym name -> Bool"""

    def __init__(self, d=None, tens=None, bools=None):
        super().__init__(d or {})
        self.tens = tens or {}
        self.bools = bools or {}
        self._c = {}
        self._ca = {}
        self._n = None

    def needs(self):
        n = (len(self), len(self.tens), len(self.bools))
        if self._n is None or self._n[0] != n:
            bits = [abit(a) for a in self] + [_bit("T:" + k) for k in self.tens] + [_bit("B:" + k) for k in self.bools]
            self._n = (n, bits)
            self._c.clear()
            self._ca.clear()
        return self._n[1]

    def touches(self, x):
        mk = mask(x)
        for b in self.needs():
            if mk & b == b:
                return True
        return False


def subst(p, m):
    if not isinstance(p, Poly):
        p = P(p)
    if not p.terms:
        return p
    if not isinstance(m, TSub):
        m = TSub(m)
    if not m.touches(p):
        return p
    cache = m._c
    r = cache.get(p)
    if r is not None:
        return r
    out = ZERO
    simple = {}
    for (b, f), c in p.terms.items():
        if not b:
            nf = None
            prod = None
            same = True
            subs = []
            for a, e in f:
                q = subst_atom(a, m)
                subs.append((a, e, q))
                if not (len(q.terms) == 1 and ((), ((a, 1),)) in q.terms):
                    same = False
            if same:
                _acc(simple, (b, f), c)
                continue
            prod = P(c)
            for a, e, q in subs:
                prod = prod * _pow_poly(q, e)
            out = out + prod
        else:
            br, fr = _freshen(b, f)
            br = tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in br)
            prod = P(c)
            for a, e in fr:
                prod = prod * _pow_poly(subst_atom(a, m), e)
            acc = {}
            for (b2, f2), c2 in prod.terms.items():
                b3, f3 = _freshen(b2, f2) if b2 else ((), f2)
                _mkterm(br + b3, f3, c2, acc)
            out = out + Poly(acc)
    r = out + Poly(simple)
    cache[p] = r
    return r


def subst_atom(a, m):
    if not isinstance(m, TSub):
        m = TSub(m)
    r = m.get(a) if m else None
    if r is not None:
        return P(r)
    if not m.touches(a):
        return from_atom(a)
    r = m._ca.get(a)
    if r is None:
        r = m._ca[a] = _subst_atom(a, m)
    return r


def _subst_atom(a, m):
    t = a[0]
    if t in ("sym", "bv"):
        return from_atom(a)
    if t == "el":
        idx = tuple(subst(p, m) for p in a[2])
        ft = getattr(m, "tens", None)
        if ft and a[1] in ft:
            return P(ft[a[1]](*idx))
        if idx == a[2]:
            return from_atom(a)
        return el(a[1], *idx)
    if t == "max":
        return maxof([subst(p, m) for p in a[1]])
    if t == "min":
        return minof([subst(p, m) for p in a[1]])
    if t == "abs":
        return abs_(subst(a[1], m))
    if t == "inv":
        return inv(subst(a[1], m))
    if t == "delta":
        return delta(subst(a[1], m), 0)
    if t == "fn":
        return fn(a[1], *[subst(x, m) if isinstance(x, Poly) else (subst_b(x, m) if isinstance(x, Bool) else x) for x in a[2]])
    if t == "ite":
        return ite(subst_b(a[1], m), subst(a[2], m), subst(a[3], m))
    if t == "bigmax":
        ren = {}
        nb = []
        for v, lo, hi in a[1]:
            n = fresh()
            ren[("bv", v)] = bv(n)
            nb.append((n, lo, hi))
        body = subst(subst(a[2], ren), m)
        r = body
        for (n, lo, hi) in reversed(nb):
            r = bigmax(n, subst(subst(lo, ren), m), subst(subst(hi, ren), m), r)
        return r
    return from_atom(a)


def subst_b(b, m):
    k = b.kind
    if k in ("T", "F"):
        return b
    if not isinstance(m, TSub):
        m = TSub(m)
    if not m.touches(b):
        return b
    r = m._ca.get(b)
    if r is None:
        r = m._ca[b] = _subst_b(b, m)
    return r


def _subst_b(b, m):
    k = b.kind
    if k == "gt":
        return gt(subst(b.a, m), 0)
    if k == "ge":
        return ge(subst(b.a, m), 0)
    if k == "bsym":
        r = getattr(m, "bools", {}).get(b.a)
        return r if r is not None else b
    if k == "isinf":
        return isinf(subst(b.a, m), b.b)
    if k == "nz":
        return nz_p(subst_atom(b.a, m))
    if k == "not":
        return not_(subst_b(b.a, m))
    if k == "and":
        return and_(*[subst_b(x, m) for x in b.a])
    if k == "or":
        return or_(*[subst_b(x, m) for x in b.a])
    if k == "exists":
        body = b.b
        nb = []
        ren = {}
        for v, lo, hi in b.a:
            n = fresh()
            ren[("bv", v)] = bv(n)
            nb.append((n, lo, hi))
        body = subst_b(subst_b(body, ren), m)
        for (n, lo, hi) in reversed(nb):
            body = exists(n, subst(subst(lo, ren), m), subst(subst(hi, ren), m), body)
        return body
    if k == "pred":
        return Bool("pred", b.a, tuple(subst(x, m) if isinstance(x, Poly) else (subst_b(x, m) if isinstance(x, Bool) else x) for x in b.b))
    return b


# ------------------------------------------------------------------------------- dependencies

def atoms_of(x, out=None, bools=None):
    """all atoms (recursively) of a Poly / Bool"""
    if out is None:
        out = set()
    if isinstance(x, Poly):
        for (b, f), c in x.terms.items():
            for v, lo, hi in b:
                atoms_of(lo, out)
                atoms_of(hi, out)
            for a, e in f:
                _atoms(a, out)
        return out
    if isinstance(x, Bool):
        k = x.kind
        if k in ("gt", "ge", "isinf"):
            atoms_of(x.a, out)
        elif k == "nz":
            _atoms(x.a, out)
        elif k == "not":
            atoms_of(x.a, out)
        elif k in ("and", "or"):
            for y in x.a:
                atoms_of(y, out)
        elif k == "exists":
            for v, lo, hi in x.a:
                atoms_of(lo, out)
                atoms_of(hi, out)
            atoms_of(x.b, out)
        elif k == "bsym":
            out.add(("bsym", x.a))
        elif k == "pred":
            out.add(("pred", x.a))
            for y in x.b:
                if isinstance(y, (Poly, Bool)):
                    atoms_of(y, out)
        return out
    return out


def _atoms(a, out):
    if a in out:
        return
    out.add(a)
    t = a[0]
    if t == "el":
        for p in a[2]:
            atoms_of(p, out)
    elif t in ("max", "min"):
        for p in a[1]:
            atoms_of(p, out)
    elif t in ("abs", "inv", "delta"):
        atoms_of(a[1], out)
    elif t == "fn":
        for p in a[2]:
            if isinstance(p, (Poly, Bool)):
                atoms_of(p, out)
    elif t == "ite":
        atoms_of(a[1], out)
        atoms_of(a[2], out)
        atoms_of(a[3], out)
    elif t == "bigmax":
        for v, lo, hi in a[1]:
            atoms_of(lo, out)
            atoms_of(hi, out)
        atoms_of(a[2], out)


SYM_DEPS = {}      # symbol that stands for a computed value -> names that value depends on


def names_of(x):
    s = set()
    for a in atoms_of(x):
        if a[0] in ("sym", "el"):
            s.add(a[1])
            d = SYM_DEPS.get(a[1])
            if d:
                s |= d
        elif a[0] == "fn":
            s.add("fn:" + a[1])
        elif a[0] in ("bsym", "pred"):
            s.add(a[1])
    return s


# ------------------------------------------------------------------------------- decision trees

def _bool_atoms(b, out):
    k = b.kind
    if k in ("T", "F"):
        return
    if k == "not":
        _bool_atoms(b.a, out)
    elif k in ("and", "or"):
        for x in b.a:
            _bool_atoms(x, out)
    elif k in ("gt", "ge") and _has_ite(b.a):
        n = len(out)
        _cond_atoms(b.a, out)
        if len(out) == n and not any(a[0] == "ite" for (bb, f), c in b.a.terms.items() for a, e in f):
            out[b.key] = b
    else:
        out[b.key] = b


def _has_ite(p):
    return mask(p) & ITEBIT == ITEBIT


def _cond_atoms(x, out):
    """atomic conditions occurring at top level of Poly/Bool (through ite, max args; not binders)"""
    if isinstance(x, Bool):
        _bool_atoms(x, out)
        return
    for (b, f), c in x.terms.items():
        for a, e in f:
            if a[0] == "ite":
                cs = {}
                _bool_atoms(a[1], cs)
                bn = {v for v, _, _ in b}
                for k, v in cs.items():
                    if not (v.free() & bn):
                        out[k] = v
                _cond_atoms(a[2], out) if not b else None
                _cond_atoms(a[3], out) if not b else None
            elif a[0] in ("max", "min"):
                for q in a[1]:
                    _cond_atoms(q, out)
            elif a[0] in ("abs", "inv"):
                _cond_atoms(a[1], out)
            elif a[0] == "fn":
                for q in a[2]:
                    if isinstance(q, Poly):
                        _cond_atoms(q, out)


def assume(x, atom, val):
    """x with the atomic condition fixed to val (and what follows by sign algebra)"""
    m = CondSub(atom, val)
    return m.b(x) if isinstance(x, Bool) else m.p(x)


def assume_all(x, cond):
    """x under the literals of a conjunction"""
    todo = list(cond.a) if cond.kind == "and" else [cond]
    for c in todo:
        if c.kind in ("and", "or", "exists") or (c.kind == "not" and c.a.kind in ("and", "or")):
            continue
        x = assume(x, c.a, False) if c.kind == "not" else assume(x, c, True)
    return x


class CondSub:
    def __init__(self, atom, val):
        self.map = {atom.key: TRUE if val else FALSE}
        if atom.kind in ("gt", "ge"):
            p = atom.a
            other = Bool("ge" if atom.kind == "gt" else "gt", p)
            if atom.kind == "gt" and val:
                self.map[other.key] = TRUE
            if atom.kind == "ge" and not val:
                self.map[other.key] = FALSE
        if atom.kind == "isinf" and val:
            self.map[Bool("isinf", atom.a, -atom.b).key] = FALSE
        self.atom, self.val = atom, val
        self.cp = {}
        self.cb = {}

    def _aff(self, p):
        """integer / real bound reasoning: same polynomial up to a constant"""
        at, val = self.atom, self.val
        if at.kind not in ("gt", "ge"):
            return None
        d = p - at.a
        c = d.const()
        if c is not None:
            return ("+", c)
        d = p + at.a
        c = d.const()
        if c is not None:
            return ("-", c)
        return None

    def b(self, x):
        k = x.kind
        if k in ("T", "F"):
            return x
        r = self.map.get(x.key)
        if r is not None:
            return r
        r = self.cb.get(x.key)
        if r is None:
            r = self.cb[x.key] = self._b(x, k)
        return r

    def _b(self, x, k):
        if k == "not":
            return not_(self.b(x.a))
        if k == "and":
            return and_(*[self.b(y) for y in x.a])
        if k == "or":
            return or_(*[self.b(y) for y in x.a])
        if k in ("gt", "ge"):
            r = self._aff(x.a)
            if r is not None:
                sgn, c = r
                at, val = self.atom, self.val
                strict_q = k == "gt"
                if sgn == "+":
                    # x.a = A + c
                    if val:   # A >(=) 0
                        st = at.kind == "gt"
                        if c > 0 or (c == 0 and (st or not strict_q)):
                            return TRUE
                    else:     # A <(=) 0 : A<=0 if gt, A<0 if ge
                        st = at.kind == "ge"
                        isint = at.a.is_int()
                        bound = c - (1 if (isint and st) else 0)
                        # x.a <= bound (or < c when strict real)
                        if isint:
                            if bound < 0 or (bound == 0 and strict_q):
                                return FALSE
                        else:
                            if c < 0 or (c == 0 and (st or strict_q)):
                                return FALSE
                else:
                    # x.a = c - A
                    if val:   # A >= 0 -> x.a <= c
                        st = at.kind == "gt"
                        if c < 0 or (c == 0 and (st or strict_q)):
                            return FALSE
                    else:     # A < 0 -> x.a > c ; int: A<=-1 -> x.a >= c+1
                        st = at.kind == "ge"
                        isint = at.a.is_int()
                        bound = c + (1 if (isint and st) else 0)
                        if isint:
                            if bound > 0 or (bound == 0 and not strict_q):
                                return TRUE
                        else:
                            if c > 0 or (c == 0 and (st or not strict_q)):
                                return TRUE
            y = self.p(x.a)
            if y is x.a or y == x.a:
                return x
            return gt(y, 0) if k == "gt" else ge(y, 0)
        if k == "exists":
            y = self.b(x.b)
            if y == x.b:
                return x
            r = y
            for v, lo, hi in reversed(x.a):
                r = exists_f(v, lo, hi, r)
            return r
        return x

    def p(self, x):
        if mask(x) & ITEBIT != ITEBIT and (mask(x) & MAXBIT != MAXBIT or self.atom.kind not in ("gt", "ge")):
            return x
        r = self.cp.get(x)
        if r is not None:
            return r
        out = ZERO
        simple = {}
        for (b, f), c in x.terms.items():
            qs = []
            same = True
            for a, e in f:
                q = self.at_(a)
                qs.append((a, e, q))
                if q is not None:
                    same = False
            if same:
                _acc(simple, (b, f), c)
                continue
            prod = P(c)
            for a, e, q in qs:
                prod = prod * (_pow_atom(a, e) if q is None else _pow_poly(q, e))
            for v, lo, hi in reversed(b):
                n_ = fresh()
                prod = sum_(n_, lo, hi, subst(prod, {("bv", v): bv(n_)}))
            out = out + prod
        r = out + Poly(simple)
        self.cp[x] = r
        return r

    def extreme(self, l, ismax):
        """without the arguments that another one bounds, given the assumption"""
        if self.atom.kind not in ("gt", "ge"):
            return l
        l = list(l)
        i = 0
        while i < len(l):
            if any(k != i and self.below(l[i], l[k], ismax) for k in range(len(l))):
                l.pop(i)
            else:
                i += 1
        return l

    def below(self, x, y, ismax):
        d = y - x if ismax else x - y
        if d.const() is not None:
            return False
        c = ge(d, 0)
        if c.kind not in ("gt", "ge"):
            if c.kind != "not" or c.a.kind not in ("gt", "ge"):
                return False
            return self.bound(c.a) is False
        return self.bound(c) is True

    def bound(self, c):
        r = self.map.get(c.key)
        if r is None and self._aff(c.a) is not None:
            r = self._b(c, c.kind)
        return None if r is None else True if r.is_true() else False if r.is_false() else None

    def at_(self, a):
        """replacement of an atom, or None when it stays"""
        if a[0] not in ("ite", "max", "min", "abs", "inv", "fn", "bigmax"):
            return None
        q = None
        if a[0] == "ite":
            q = ite(self.b(a[1]), self.p(a[2]), self.p(a[3]))
        elif a[0] in ("max", "min"):
            q = (maxof if a[0] == "max" else minof)(self.extreme([self.p(y) for y in a[1]], a[0] == "max"))
        elif a[0] == "abs":
            q = abs_(self.p(a[1]))
        elif a[0] == "inv":
            q = inv(self.p(a[1]))
        elif a[0] == "fn":
            q = fn(a[1], *[self.p(y) if isinstance(y, Poly) else y for y in a[2]])
        elif a[0] == "bigmax":
            y = self.p(a[2])
            if y == a[2]:
                return None
            for v, lo, hi in reversed(a[1]):
                y = bigmax_f(v, lo, hi, y)
            q = y
        if q is not None and len(q.terms) == 1 and ((), ((a, 1),)) in q.terms:
            return None
        return q


def leaves(x, limit=4096):
    """decision-tree leaves: list of (list of (atom, bool), leaf)"""
    out = []

    def rec(x, path):
        if len(out) > limit:
            raise OverflowError("too many cases")
        at = {}
        _cond_atoms(x, at)
        if not at:
            out.append((path, x))
            return
        k = min(at)
        a = at[k]
        rec(assume(x, a, True), path + [(a, True)])
        rec(assume(x, a, False), path + [(a, False)])
    rec(x, [])
    return out


def equal(x, y, limit=4096, secs=None):
    """canonical equality of Poly or Bool, modulo case splits on their atomic conditions.
    returns None when equal, else a description (path, x-leaf, y-leaf) of a differing case"""
    if x == y:
        return None
    cnt = [0]
    import time
    end = time.time() + (secs or 60)

    def rec(x, y, path):
        cnt[0] += 1
        if cnt[0] > limit or time.time() > end:
            raise OverflowError("too many cases")
        if x == y:
            return None
        at = {}
        _cond_atoms(x, at)
        _cond_atoms(y, at)
        if not at:
            if x == y:
                return None
            # numerators: x - y == 0 after clearing inverses
            if isinstance(x, Poly) and isinstance(y, Poly):
                d = clear(x - y)
                if d == ZERO:
                    return None
            return (path, x, y)
        k = min(at)
        a = at[k]
        r = rec(assume(x, a, True), assume(y, a, True), path + [(a, True)])
        if r:
            return r
        return rec(assume(x, a, False), assume(y, a, False), path + [(a, False)])
    return rec(x, y, [])


def taut(x, limit=400):
    """condition true in every case of its atomic conditions"""
    if x.is_true():
        return True
    if x.kind not in ("or", "and", "not", "gt", "ge"):
        return False
    try:
        return equal(x, TRUE, limit) is None
    except OverflowError:
        return False


def clear(d):
    """multiply by inverse atoms so that rational expressions compare"""
    for _ in range(6):
        a = None
        for (b, f), c in d.terms.items():
            for x, e in f:
                if x[0] == "inv" and not (b and free_bvs(x) & {v for v, _, _ in b}):
                    a = x
                    break
            if a:
                break
        if a is None:
            return d
        out = ZERO
        for (b, f), c in d.terms.items():
            fd = dict(f)
            t = Poly({(b, f): c})
            if a in fd:
                nf = tuple((x, e if x != a else e - 1) for x, e in f if not (x == a and e == 1))
                if b:
                    br, fr = _freshen(b, nf)
                    acc = {}
                    _mkterm(br, fr, c, acc)
                    t = Poly(acc)
                else:
                    t = Poly({(b, nf): c})
            else:
                t = t * a[1]
            out = out + t
        d = out
    return d


# ------------------------------------------------------------------------------- printing

def show(x, lim=400):
    s = _show(x)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(x):
    if isinstance(x, Poly):
        if not x.terms:
            return "0"
        ps = []
        for (b, f), c in sorted(x.terms.items(), key=lambda kv: _tkey(*kv[0])):
            s = "*".join(_show_atom(a) if e == 1 else "%s^%d" % (_show_atom(a), e) for a, e in f)
            if b:
                s = "SUM_{%s}(%s)" % (",".join("%s<%s" % (v, _show(hi)) if lo == ZERO else "%s<=%s<%s" % (_show(lo), v, _show(hi)) for v, lo, hi in b), s)
            if not s:
                s = _num(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = _num(c) + "*" + s
            ps.append(s)
        return " + ".join(ps).replace("+ -", "- ")
    if isinstance(x, Bool):
        k = x.kind
        if k == "T":
            return "true"
        if k == "F":
            return "false"
        if k == "gt":
            return "(%s > 0)" % _show(x.a)
        if k == "ge":
            return "(%s >= 0)" % _show(x.a)
        if k == "bsym":
            return str(x.a)
        if k == "isinf":
            return "(%s == %sinf)" % (_show(x.a), "-" if x.b < 0 else "+")
        if k == "nz":
            return "nz(%s)" % _show_atom(x.a)
        if k == "not":
            return "!" + _show(x.a)
        if k in ("and", "or"):
            return "(" + (" && " if k == "and" else " || ").join(_show(y) for y in x.a) + ")"
        if k == "exists":
            return "EXISTS_{%s} %s" % (",".join(v for v, _, _ in x.a), _show(x.b))
        if k == "pred":
            return "%s(%s)" % (x.a, ", ".join(_show(y) if isinstance(y, (Poly, Bool)) else str(y) for y in x.b))
    return str(x)


def _num(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f)


def _show_atom(a):
    t = a[0]
    if t in ("sym", "bv"):
        return a[1]
    if t == "el":
        return a[1] + "(" + ",".join(_show(p) for p in a[2]) + ")"
    if t in ("max", "min"):
        return t + "(" + ", ".join(_show(p) for p in a[1]) + ")"
    if t == "abs":
        return "|" + _show(a[1]) + "|"
    if t == "inv":
        return "1/(" + _show(a[1]) + ")"
    if t == "delta":
        return "[" + _show(a[1]) + "==0]"
    if t == "fn":
        return a[1] + "(" + ", ".join(_show(p) if isinstance(p, (Poly, Bool)) else str(p) for p in a[2]) + ")"
    if t == "ite":
        return "(" + _show(a[1]) + " ? " + _show(a[2]) + " : " + _show(a[3]) + ")"
    if t == "bigmax":
        return "MAX_{%s}(%s)" % (",".join(v for v, _, _ in a[1]), _show(a[2]))
    return repr(a)
