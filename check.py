#!/usr/bin/env python3
"""Runs the static analysis that decides one property: check.py ID"""
import os
import sys
import time
import traceback

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)


MODULES = {"Q": "qpprops", "S": "sparse", "I": "ipopt", "T": "timeprops", "K": "typeprops", "P": "pid", "E": "ekf", "A": "asif", "L": "colloc", "R": "ocp", "H": "mesh", "N": "ocpnlp", "M": "mpc"}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa import framework as fw
    t0 = time.time()

    def late(sig, frame):
        raise fw.OutOfTime()
    if tier == "quick":
        import signal
        signal.signal(signal.SIGALRM, late)
        signal.alarm(fw.STOP)
    try:
        mod = __import__("checks." + MODULES[pid[0]], fromlist=["run"])
        ck = mod.run(pid, tier, seed)
    except fw.AnchorMissing as e:
        ck = fw.Check(pid, tier, seed)
        ck.undecided("analysis", "", "cannot find: %s" % e)
    except (Exception, fw.OutOfTime) as e:       # noqa
        traceback.print_exc()
        ck = fw.Check.last
        if ck is None or not any(o.status in ("holds", "violated") for o in ck.obs):
            print("NO ANSWER: internal error of the analysis, or its time is used up")
            return 2
        ck.undecided("the rest of the analysis", "", "%s: %s" % (type(e).__name__, e))
    ck.t0 = t0
    return fw.finish(ck)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
