"""Which obligations decide which Q property."""
import re
import multiprocessing
import traceback
from sa.framework import *
from . import qp
from .qpmodel import *

MODELS = [(k, s) for k in ("PD", "PS", "PP") for s in (False, True)]
GROUPS = ["kkt", "step", "init", "ws_only", "stop", "start_status", "check_schedule", "final", "positive", "noscale",
          "history", "upper", "polish", "effects", "copy", "alias", "wrap", "ctor"]
NEED_CODES = {"stop", "start_status", "polish"}


def run_model(a):
    """all requested groups on one model (own process: symbols are global)"""
    kind, scaled, groups, tier, seed, alias = a
    out, ana = [], {}
    try:
        M = Model(kind, scaled, alias)
        codes = qp.enum_codes(M.p)
    except AnchorMissing as e:
        return [("model", Ob("%s, scaling %s: analysis of the solver" % (LABEL[kind], "on" if scaled else "off"), "undecided",
                             "", "cannot find: %s" % e))], ana
    except Exception as e:      # noqa
        return [("model", Ob("%s, scaling %s: analysis of the solver" % (LABEL[kind], "on" if scaled else "off"), "undecided",
                             "", "not analysable: %s %s" % (e, traceback.format_exc(limit=-4))))], ana
    ana["%s: loops analysed" % M.label] = len(M.I.loops)
    ana["%s: events (factorizations, clock readings, branches)" % M.label] = len(M.I.events)
    for g in groups:
        ck = Check("Q", tier, seed)
        try:
            f = getattr(qp, "g_" + g)
            f(M, ck, codes) if g in NEED_CODES else f(M, ck)
        except AnchorMissing as e:
            ck.undecided("%s: %s" % (M.label, g), M.where, "cannot find: %s" % e)
        except Exception as e:      # noqa
            ck.undecided("%s: %s" % (M.label, g), M.where, "not analysable: %r %s" % (e, traceback.format_exc(limit=-3)))
        for o in ck.obs:
            o.model = (kind, scaled)
            out.append((g, o))
        ana.update(ck.analysed)
    return out, ana


def run_all(groups, tier, seed):
    program()                       # extract once
    with multiprocessing.Pool(6) as pool:
        jobs = []
        if "alias" in groups:
            jobs += [(k, True, ["alias"], tier, seed, True) for k in ("PD", "PS", "PP")]
        rest = [g for g in groups if g != "alias"]
        jobs = [(k, s, rest, tier, seed, False) for k, s in MODELS] + jobs
        rs = pool.map(run_model, jobs, chunksize=1)
    obs, ana = [], {}
    for o, a in rs:
        obs += o
        ana.update(a)
    return obs, ana


def stem(o):
    return o.name.split(": ", 1)[1] if ": " in o.name else o.name


def by_groups(*gs, only=None, skip=None):
    def f(obs):
        return [o for g, o in obs if g in gs + ("model",)
                and (only is None or re.search(only, stem(o))) and (skip is None or not re.search(skip, stem(o)))]
    return list(gs), f


def scaling_only(obs):
    """obligations in user units: broken when scaling is on although they hold when it is off"""
    out = []
    off = {}
    for g, o in obs:
        if getattr(o, "model", ("", True))[1] is False:
            off[(g, o.model[0], stem(o))] = o.status
    for g, o in obs:
        if not getattr(o, "model", (0, True))[1]:
            continue
        if g in ("positive", "noscale", "model"):
            out.append(o)
        elif o.status == "violated" and off.get((g, o.model[0], stem(o))) != "holds":
            # broken (or not known to be right) without scaling too: not a matter of scaling
            out.append(Ob(o.name, "undecided", o.where, "also without scaling: " + o.detail))
        else:
            out.append(o)
    return out


def shapes_agree(obs):
    st = {}
    for g, o in obs:
        m = getattr(o, "model", None)
        if m:
            st.setdefault((g, m[1], stem(o)), {})[m[0]] = o
    out = []
    for (g, s, name), d in sorted(st.items(), key=str):
        v = [k for k in d if d[k].status == "violated"]
        lab = "%s%s" % ("" if s else "scaling off: ", name)
        o1 = next(iter(d.values()))
        if v and any(d[k].status == "holds" for k in d):
            o = d[v[0]]
            out.append(Ob("%s (%s)" % (lab, ", ".join(LABEL[k] for k in sorted(v))), "violated", o.where,
                          "holds for %s problems, but not for %s ones\n    %s" % (
                              ", ".join(LABEL[k] for k in sorted(d) if d[k].status == "holds"),
                              ", ".join(LABEL[k] for k in sorted(v)), o.detail)))
        elif any(d[k].status == "undecided" for k in d):
            out.append(Ob(lab, "undecided", o1.where, "undecided for some shape"))
        elif len(d) > 1:
            out.append(Ob(lab, "holds", o1.where, how="the same normal form for %s" % ", ".join(LABEL[k] for k in sorted(d))))
    out += [o for g, o in obs if g == "model"]
    return out


USER = ["kkt", "step", "init", "stop", "final", "polish"]
PROPS = {
    "Q01": (USER + ["positive", "noscale"], scaling_only),
    "Q02": by_groups("stop", "start_status", "polish", "wrap", "ctor", only="the setting (eps|stop|verbose)|returned code|status|reported|iff|stops|continues|criteri|polishing is only|no other|analysis"),
    "Q03": by_groups("upper"),
    "Q04": by_groups("check_schedule", "stop", "start_status", "init", "wrap", "ctor",
                     only="the setting (max_|stop|verbose)|remainder|limit|continues|counter|no iteration|consulted|analysis"),
    "Q05": by_groups("history", "copy", "wrap", skip="solve_qp: (the|returned)"),
    "Q06": by_groups("effects"),
    "Q07": by_groups("kkt", "step", "init", "wrap", "ctor", skip="warm start|the setting (eps|max_|stop|verbose|polish|delta)|solve_qp: (returned|the problem|the guess|working)"),
    "Q08": by_groups("polish", "wrap", "ctor", skip="solve_qp: (returned|the problem|the guess|working)|the setting (eps|max_|stop|verbose|rho|alpha|sigma|scaling)"),
    "Q09": by_groups("init", "ws_only", "alias", "wrap", only="start|guess|analysis"),
    "Q10": by_groups("start_status", "stop", "step", "kkt", "polish",
                     only="contradictory|certificate|clamp|diag|active constraints|no iteration|analysis|active bounds"),
    "Q11": (USER + ["start_status", "upper", "history", "check_schedule"], shapes_agree),
    "Q12": by_groups("final", "init", "wrap", only="the problem is the caller|returned|sol\\(\\)|counter|analysis"),
}


def run(pid, tier, seed):
    evalt.LOOP_FREE = True
    groups, sel = PROPS[pid]
    ck = Check(pid, tier, seed)
    obs, ana = run_all(groups, tier, seed)
    ck.analysed.update(ana)
    ck.obs = sel(obs)
    return ck
