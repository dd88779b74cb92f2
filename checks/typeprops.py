"""Compile-time witnesses (property K01): the type checker decides every static_assert of tu/types.cpp"""
import re
import shutil
from sa.framework import *

SRC = os.path.join(HERE, "tu", "types.cpp")


def witnesses():
    """messages of the static_asserts, by line"""
    out = {}
    for n, l in enumerate(open(SRC).read().splitlines(), 1):
        if l.startswith("static_assert(") or l.startswith("  && dense"):
            m = re.search(r', "([^"]*)"\);$', l)
            if m:
                out[n] = m.group(1)
    return out


def anchor(name):
    for pat, f in ((r"^(NLP|HessianNLP) ", "nlp.hpp"), (r"time|integers are no|ROS|std::chrono|durations", "time.hpp"),
                   (r"specializations?|containers|parameters|trait classes|derived", "traits.hpp"), (r"solver|solution of", "qp_solver.hpp")):
        if re.search(pat, name):
            return "include/smooth/feedback/" + f
    return "include/smooth/feedback/qp.hpp"


def run(pid, tier, seed):
    ck = Check(pid, tier, seed)
    ws = witnesses()
    cxx = next(c for c in ("clang++-18", "clang++", "g++") if shutil.which(c))
    cmd = [cxx, "-std=c++20", "-fsyntax-only", "-w", "-I" + os.path.join(HERE, "stub"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", SRC]
    cmd += ["-fmax-errors=0"] if cxx == "g++" else ["-ferror-limit=0", "-fno-caret-diagnostics"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    failed, other = set(), []
    for l in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if not m:
            continue
        n = int(m.group(2))
        if m.group(1) == SRC and n in ws and re.search(r"static.assert", m.group(3)):
            failed.add(n)
        else:
            other.append("%s:%d: %s" % (m.group(1), n, m.group(3)))
    if r.returncode and not failed and not other:
        other.append(r.stderr[-500:])
    for n, w in sorted(ws.items()):
        if n in failed:
            ck.violated(w, anchor(w), "the witness at tu/types.cpp:%d does not hold for the types of the current headers" % n)
        elif other:
            ck.undecided(w, anchor(w), "the witnesses do not compile: " + other[0][:300])
        else:
            ck.holds(w, anchor(w), "type checker")
    if not ws:
        raise AnchorMissing("tu/types.cpp")
    ck.analysed["compile-time witnesses"] = len(ws)
    ck.rules = ["a positive witness is a type with the interface, a negative one differs from it by one missing or unusable member; the type checker evaluates every one of them against the current headers"]
    return ck
