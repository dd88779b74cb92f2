"""Obligations, outcomes, evidence and exit codes shared by all checks."""
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

from .values import *          # noqa
from . import terms as tm      # noqa
from . import evalt            # noqa
from . import bdd              # noqa


class AnchorMissing(Exception):
    """the program element a property is anchored at cannot be found: no answer possible"""


def astex():
    exe = os.path.join(BUILD, "astex")
    src = os.path.join(HERE, "tool", "astex.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        subprocess.run(["sh", os.path.join(HERE, "tool", "build.sh"), exe], check=True)
    return exe


def tree_hash(extra=()):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"),) + tuple(extra):
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def extract(tu, incs=(), defs=(), prefixes=None):
    """type-resolved syntax trees of /repo's current sources, as instantiated by tu/<tu>.cpp"""
    src = os.path.join(HERE, "tu", tu + ".cpp")
    exe = astex()
    key = tree_hash((src, exe) + tuple(os.path.join(HERE, i) for i in incs))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%s.json" % (tu, key))
    if not os.path.exists(out):
        for f in os.listdir(BUILD):
            if f.startswith(tu + ".") and f.endswith(".json"):
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        pre = prefixes or [os.path.join(REPO, "include"), os.path.join(HERE, "tu")]
        tmp = "%s.%d.tmp" % (out, os.getpid())
        cmd = [exe, tmp, ":".join(pre), src, "-std=c++20", "-Wno-c++11-narrowing"]
        cmd += ["-I" + os.path.join(HERE, i) for i in incs]
        cmd += ["-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3"]
        cmd += ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + list(defs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise AnchorMissing("the sources do not compile with the analysis front end (tu/%s.cpp):\n%s"
                                % (tu, "\n".join(x for x in r.stderr.splitlines() if "error" in x)[:3000]))
        os.rename(tmp, out)
    return out


class Ob:
    def __init__(self, name, status, where, detail="", how=""):
        self.name, self.status, self.where, self.detail, self.how = name, status, where, detail, how


class OutOfTime(BaseException):
    """the time for one run of a check is used up"""


START = time.time()
# seconds after which no more witnesses are searched for once a violation is known; after which nothing more is decided
ENOUGH, LIMIT, STOP = 150, 500, 700


class Check:
    """collects the obligations of one property"""
    last = None

    def __init__(self, pid, tier="quick", seed=1):
        Check.last = self
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.t0 = time.time()
        self.analysed = {}
        self.rules = []
        self.assume = []
        self.diffs = {}

    # ---- recording
    def add(self, name, status, where="", detail="", how=""):
        self.obs.append(Ob(name, status, where, detail, how))
        return status == "holds"

    def holds(self, name, where="", how=""):
        return self.add(name, "holds", where, how=how)

    def violated(self, name, where="", detail=""):
        return self.add(name, "violated", where, detail)

    def undecided(self, name, where="", detail="", how=""):
        return self.add(name, "undecided", where, detail, how)

    def rule(self, name, ok, where="", detail="", how=""):
        """syntactic / effect rule with a definite answer"""
        if ok is None:
            return self.undecided(name, where, detail)
        return self.holds(name, where, how) if ok else self.violated(name, where, detail)

    # ---- term comparison
    def same(self, name, got, want, where="", under=TRUE, dims=None, inf=None, fixed=None, tries=None, gi=None,
             ignore_opaque=False, free=()):
        got = B(got) if isinstance(want, Bool) and not isinstance(got, Bool) else got
        if isinstance(got, Bool) and not isinstance(want, Bool):
            want = B(want)
        if not isinstance(got, (Poly, Bool)) or not isinstance(want, (Poly, Bool)):
            return self.undecided(name, where, "not a scalar value: %r / %r" % (got, want))
        if not under.is_true():
            try:
                got, want = tm.assume_all(got, under), tm.assume_all(want, under)
            except RecursionError:
                pass
        g2, w2 = got, want
        if not under.is_true():
            if isinstance(got, Bool):
                g2, w2 = and_(under, got), and_(under, want)
            else:
                g2, w2 = ite(under, got, ZERO), ite(under, want, ZERO)
        if time.time() - START > (LIMIT if self.tier == "quick" else 20 * LIMIT):
            return self.undecided(name, where, "the time for one run is used up")
        diff = "?"
        try:
            r = bdd.equal(got, want, under)
            diff = None if r is True else (list(r[0]), r[1], r[2])
        except (bdd.Budget, RecursionError):
            diff = "overflow"
        if diff is not None:
            try:
                d2 = tm.equal(g2, w2, limit=1500, secs=8)
                diff = None if d2 is None else d2 if diff == "overflow" else diff
            except (OverflowError, RecursionError):
                pass
        if diff is None:
            return self.holds(name, where, "normal form")
        og, ow = evalt.opaque_names(got), evalt.opaque_names(want)
        # the result of a loop that both sides refer to is a plain variable
        opq = (og | ow) - set(free) - {n for n in og & ow if n.startswith(("loopT.", "fn:lib:")) or evalt.LOOP_HEAD.match(n)}
        if opq and not ignore_opaque:
            # the differing case may not involve the unresolved symbols
            if isinstance(diff, tuple) and isinstance(diff[1], (Poly, Bool)) and \
                    not ((evalt.opaque_names(diff[1]) | evalt.opaque_names(diff[2]))):
                pass
            else:
                return self.undecided(name, where, "unresolved: %s" % ", ".join(sorted(opq))[:300])
        und = under if not under.is_true() else None
        if self.tier == "quick" and time.time() - START > ENOUGH and any(o.status == "violated" for o in self.obs):
            return self.undecided(name, where, "the normal forms differ; no values were searched for, as a violation is already known")
        gi = used_gi(gi, got, want, und)
        sep = evalt.separate(got, want, und, dims=dims, inf=inf, gi=gi,
                             tries=tries or (600 if self.tier == "quick" else 4000), seed=self.seed, fixed=fixed)
        if sep is None and isinstance(diff, tuple) and isinstance(diff[0], list):
            path = [(a, v) for a, v in diff[0] if isinstance(a, Bool)]
            sep = evalt.separate_along(got, want, path, und, dims=dims, inf=inf, gi=gi, seed=self.seed, fixed=fixed,
                                       secs=5 if self.tier == "quick" else 20)
        if sep is None:
            self.diffs[name] = diff
            return self.undecided(name, where, "the normal forms differ, but no values of the variables were found that separate them",
                                  how="computed: %s\n    required: %s" % (show(got, 600), show(want, 600)))
        e, b, u, v = sep
        det = "computed: %s\n    required: %s\n    they differ (%s instead of %s) e.g. for %s" % (
            show(got, 900), show(want, 900), evalt.fmt(u), evalt.fmt(v), evalt.describe(e, b))
        return self.violated(name, where, det)

    @staticmethod
    def proved(got, want, under=TRUE):
        """the normal forms agree"""
        if not isinstance(got, Poly) or not isinstance(want, Poly):
            return False
        try:
            if not under.is_true():
                got, want = tm.assume_all(got, under), tm.assume_all(want, under)
            return got == want or bdd.equal(got, want, under) is True
        except (bdd.Budget, RecursionError, OverflowError):
            return False

    def same_t(self, name, got, want, where="", under=TRUE, split=False, **kw):
        """element-wise equality of tensors (and of their dimensions)"""
        if not isinstance(got, T) or not isinstance(want, T):
            return self.undecided(name, where, "not a matrix value: %r" % (got,))
        dk = {k: kw[k] for k in ("dims",) if k in kw}
        for what, a, b in (("rows", got.rows, want.rows), ("cols", got.cols, want.cols)):
            if a != b:
                try:
                    d = tm.equal(a, b)
                except OverflowError:
                    d = "?"
                if d is not None:
                    if not self.same(name + " [%s]" % what, a, b, where, **dk):
                        return False
        gi = dict(kw.pop("gi", None) or {})
        bi = ZERO if want.rows == ONE else gidx("a", want.rows, gi)
        bj = ZERO if want.cols == ONE else gidx("b", want.cols, gi)
        u2 = under(bi, bj) if callable(under) else under
        if split and bj != ZERO and bi != ZERO:
            # the diagonal and the rest separately
            u1 = under(bi, bi) if callable(under) else under
            z = {a: ZERO for x in (got.at(bi, bj), want.at(bi, bj)) for a in tm.atoms_of(x) if a[0] == "delta"}
            ok = self.same(name + " [diagonal]", got.at(bi, bi), want.at(bi, bi), where, under=u1, gi=gi, **kw)
            u2 = and_(u2, not_(eq(bi, bj)))
            return self.same(name, subst(got.at(bi, bj), z), subst(want.at(bi, bj), z), where, under=u2, gi=gi, **kw) and ok
        r, c = P(want.rows).const(), P(want.cols).const()
        if r is not None and c is not None and 1 < r * c <= 36 and not self.proved(
                got.at(bi, bj), want.at(bi, bj), u2):
            # a small matrix: element by element
            if all(self.proved(got.at(P(i), P(j)), want.at(P(i), P(j)), under(P(i), P(j)) if callable(under) else under)
                   for i in range(int(r)) for j in range(int(c))):
                return self.holds(name, where, "normal form, element by element")
        return self.same(name, got.at(bi, bj), want.at(bi, bj), where, under=u2, gi=gi, **kw)

    def never(self, name, cond, where="", **kw):
        return self.same(name, cond, FALSE, where, **kw)


_gidx = {}


def used_gi(gi, *xs):
    """the generic indices that occur in xs (and in the sizes of those that do)"""
    if not gi:
        return gi
    names = set()

    def add(x):
        for a in tm.atoms_of(x):
            if a[0] == "bv" and a[1] in gi and a[1] not in names:
                names.add(a[1])
                add(P(gi[a[1]]))
    for x in xs:
        if isinstance(x, (Poly, Bool)):
            add(x)
    return {n: s for n, s in gi.items() if n in names}


def gidx(slot, size, gi=None):
    """a generic index 0 <= i < size (one name per range: simplifications are cached by name)"""
    k = (slot, P(size).key)
    n = _gidx.get(k)
    if n is None:
        n = _gidx[k] = "%s%d" % ({"a": "gra", "b": "gcb"}.get(slot, "g" + slot), len(_gidx))
        tm.RANGES[n] = (ZERO, P(size))
    if gi is not None:
        gi[n] = P(size)
    return bv(n)


def parallel(ck, jobs, work, width=8):
    """work(check, job) for every job, in separate processes; the obligations are collected in order"""
    import pickle
    import select
    res, run, todo = {}, {}, list(enumerate(jobs))
    while todo or run:
        while todo and len(run) < width:
            n, j = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                out = None
                try:
                    os.close(r)
                    c = Check(ck.pid, ck.tier, ck.seed)
                    try:
                        work(c, j)
                        out = ("ok", [o.__dict__ for o in c.obs])
                    except AnchorMissing as e:
                        out = ("anchor", str(e))
                    except BaseException:
                        out = ("error", traceback.format_exc())
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (n, pid, b"")
        left = None if ck.tier != "quick" else max(0, START + STOP - 60 - time.time())
        ready, _, _ = select.select(list(run), [], [], left)
        if not ready:
            for r, (n, pid, buf) in run.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            run, todo = {}, []
            ck.undecided("part of the analysis", "", "the time for one run is used up")
        for r in ready:
            n, pid, buf = run[r]
            d = os.read(r, 1 << 16)
            if d:
                run[r] = (n, pid, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del run[r]
            res[n] = pickle.loads(buf) if buf else ("error", "a worker died")
    for n in sorted(res):
        kind, val = res[n]
        if kind == "anchor":
            raise AnchorMissing(val)
        if kind == "error":
            sys.stderr.write(val)
            ck.undecided("part of the analysis", "", "internal error: %s" % val.strip().splitlines()[-1])
            continue
        for d in val:
            ck.add(**d)


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                kv = dict(x.split("=", 1) for x in line[7:].split(" | ")[0].split() if "=" in x)
                what = line.split(" | ", 1)[1] if " | " in line else ""
                out.append((kv.get("property"), kv.get("obligation"), what))
    return out


def finish(ck, level_note=""):
    known = load_known()
    viol, kn = [], []
    for o in ck.obs:
        if o.status == "violated":
            hit = [k for k in known if k[0] == ck.pid and k[1] == o.name.replace(" ", "_")]
            (kn if hit else viol).append((o, hit[0][2] if hit else ""))
    und = [o for o in ck.obs if o.status == "undecided"]
    hold = [o for o in ck.obs if o.status == "holds"]
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, ck.pid + ".report.txt")
    with open(rep, "w") as f:
        for o in ck.obs:
            f.write("[%s] %s  (%s)%s\n" % (o.status, o.name, o.where, "  by " + o.how if o.how else ""))
            if o.detail:
                f.write("    %s\n" % o.detail)
    ev = {
        "property": ck.pid, "tier": ck.tier, "seed": ck.seed, "level": "other",
        "coverage": {
            "explanation": level_note or "static analysis: every obligation is decided on the current syntax trees of /repo",
            "obligations": len(ck.obs), "discharged": len(hold), "undecided": len(und), "known": len(kn),
            "by_normal_form": sum(1 for o in hold if o.how == "normal form"),
            "by_interpretations": sum(1 for o in hold if o.how.startswith("equal under")),
            "analysed": ck.analysed, "rules": ck.rules,
            "samples": [{"obligation": o.name, "where": o.where, "outcome": o.status, "by": o.how} for o in ck.obs[:400]],
        },
        "assumptions": ck.assume,
        "wall_s": round(time.time() - ck.t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evd, ck.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1fs)" % (
        ck.pid, len(ck.obs), len(hold), len(und), len(kn), len(viol), time.time() - ck.t0))
    for o in und:
        print("UNDECIDED %s (%s): %s" % (o.name, o.where, o.detail.split("\n")[0][:200]))
    for o, what in kn:
        print("KNOWN-FINDING: property=%s %s [%s]" % (ck.pid, what or o.name, o.where))
    for o, _ in viol:
        print("violated: %s at %s\n    %s" % (o.name, o.where, o.detail))
    if viol:
        print("VIOLATION property=%s replay=%s" % (ck.pid, rep))
        return 1
    if not hold and not kn:
        print("NO ANSWER: no obligation could be decided")
        return 2
    return 0
