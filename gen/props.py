#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 gen/props.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QS = "include/smooth/feedback/qp_solver.hpp"
QP = "include/smooth/feedback/qp.hpp"
PROPS = []
NA = []
NOTE = {}
TECH = {}
VN = "abstract interpretation of the instantiated syntax trees: gated value numbering, loop summaries, canonical normal forms compared with the required formulas"


def prop(id, title, statement, over, text, why, files, mech, tech=VN, note="", claim=True, reason=""):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    assert len(title) <= 80, (id, len(title))
    if claim:
        TECH[id] = tech
        NOTE[id] = note
    else:
        NA.append({"property": id, "reason": reason})


QNOTE = ("Decides the formulas computed by the current source for all problem data, sizes, settings and iteration numbers, for the dense, "
         "static (7x5) and sparse instantiations with scaling on and off; real arithmetic (rounding is outside), Eigen operations are "
         "modelled by their documented meaning, a formula that differs is reported only when an assignment of its variables separates it "
         "from the required one and no unresolved construct is involved; otherwise it is counted as undecided in the evidence.")

prop("Q01", "Internal scaling is invisible to the caller",
     "With scaling enabled the solver works on an equivalent problem: problem data, warm start, tolerances, stopping decisions, polishing and "
     "the returned primal, dual and objective all refer to the problem as the caller stated it, exactly as with scaling disabled. The scaling factors are "
     "always positive, are one when scaling is off, and analyzing a new problem resets them.",
     ["inputs", "configurations"], "all problem data, warm starts and tolerances; scaling on and off; dense, static and sparse problems",
     "The tests use a handful of well scaled random problems with loose tolerances, where a missing or doubled scaling factor hardly moves the result.",
     [QS], [("scaling factors", QS + " (scale, solve)"), ("unscaling before the stopping tests", QS + " (check_stopping)"),
            ("unscaling of the result", QS + " (solve)")], note=QNOTE)
prop("Q02", "The reported exit status is truthful",
     "Optimal is reported exactly when the returned point satisfies the primal and dual residual tolerances of the caller's problem at a stopping check; "
     "PrimalInfeasible and DualInfeasible only when the corresponding certificate holds (or the bounds contradict each other), MaxIterations and MaxTime only when that limit ended the run, "
     "Unknown when the factorization failed and PolishFailed only when polishing an optimal point failed. No status is reported for a run that ended for another reason.",
     ["inputs", "histories", "configurations"], "all problems, settings and iteration histories",
     "Tests see a few problems for each status; the conditions mix infinite bounds, tolerances and limits in combinations that never occur there.",
     [QS, QP], [("stopping tests", QS + " (check_stopping)"), ("status selection", QS + " (solve)")], note=QNOTE)
prop("Q03", "Only the upper triangle of the cost matrix is read",
     "The result (iterates, status, objective, primal and dual) depends on the upper triangle of the quadratic cost matrix only; whatever is stored below its diagonal "
     "has no influence, with or without scaling and polishing.",
     ["inputs", "configurations"], "all cost matrices, symmetric or only upper-triangular, dense and sparse",
     "All test problems pass full symmetric matrices, for which reading either triangle gives the same numbers.",
     [QS, QP], [("selfadjoint views of P", QS), ("assembly of the upper triangle of the KKT matrix", QS)], note=QNOTE)
prop("Q04", "Iteration and time limits are honoured for every setting",
     "For every value of the settings, including zero and one, the solver never runs more than max_iter iterations, performs its stopping checks regularly "
     "(every stop_check_iter iterations, at least once per such period), stops at the first check after the time limit measured from the start of the call, and reports the number of iterations it performed.",
     ["configurations", "histories"], "all values of max_iter, max_time and stop_check_iter; all iteration numbers",
     "Tests keep the default check interval and never combine limits with undecided checks.",
     [QS], [("main loop", QS + " (solve)"), ("time limit", QS)], note=QNOTE + " The clock is an opaque source of readings; convergence itself is not claimed.")
prop("Q05", "A solve does not depend on earlier solves",
     "What solve returns is a function of the settings, the problem, and the warm start of this call: solving other problems of the same structure before, in any order and with any outcome, "
     "or re-analyzing, copying or assigning the solver, changes nothing.",
     ["histories", "inputs"], "all sequences of analyze / solve / copy calls on one solver object",
     "Tests reuse a solver once or twice on benign problems; stale workspace only shows after specific sequences.",
     [QS], [("workspace reset", QS + " (solve)"), ("symbolic factorization flag", QS + " (analyze, LDLTWrapper)"), ("sparse pattern reuse", QS)], note=QNOTE)
prop("Q06", "Solvers are isolated: inputs untouched, nothing shared",
     "Solving never modifies the problem, the warm start or the settings, keeps no reference to them after returning, and shares no mutable state between solver objects, "
     "so different solver objects may be used from different threads.",
     ["schedules", "histories", "programs"], "all interleavings of calls on distinct solver objects",
     "Single-threaded tests cannot observe shared state or writes that happen to restore a value.",
     [QS, QP], [("member storage", QS), ("const access to the problem", QS)],
     tech="effect analysis over the call graph reachable from the solver: static storage, member ownership, final values of the arguments", note=
     "Every function reachable from the solver's members and solve_qp is inspected for variables with static storage that are not constants, every member for indirection, and the abstract final "
     "state of the arguments is compared with the initial one. Eigen and the standard library are trusted.")
prop("Q07", "The iteration is the documented operator-splitting method",
     "Each iteration solves the regularised KKT system of the (scaled) problem for the current iterate and performs the relaxed update, the projection of the slack onto the constraint bounds and the dual update of the "
     "documented method, starting from zero without a warm start; its fixed points are exactly the KKT points of the problem, for all values of rho, sigma and alpha.",
     ["inputs", "configurations"], "all problem data, all parameter values, all iterates",
     "An iteration with a wrong weight still converges on easy problems; tests only look at the final point with loose tolerance.",
     [QS], [("KKT assembly", QS + " (solve)"), ("iterate update", QS + " (solve)")], note=QNOTE)
prop("Q08", "Polishing solves the KKT system of the active constraints",
     "Polishing is attempted only for optimal points and only when enabled; it selects as active exactly the rows with a significantly negative (positive) multiplier and a finite lower (upper) bound, solves the equality constrained "
     "problem of those rows by refining the regularised system the configured number of times, and writes back primal and active multipliers. When it fails the unpolished point is returned.",
     ["inputs", "configurations"], "all active sets, problem data, polish settings, dense and sparse",
     "Tests polish small problems whose active set has one pattern; index mix-ups between lower and upper rows only show with both kinds present.",
     [QS], [("polish_qp", QS + " (polish_qp)")], note=QNOTE)
prop("Q09", "A warm start is only an initial guess, in the caller's units",
     "A warm start is interpreted in the units of the caller's problem, determines the initial iterates and nothing else (not the scaling, the system matrix, the tolerances or the returned fields), "
     "and may be the solution object the solver itself returned before.",
     ["inputs", "histories"], "all warm starts, including the solver's own previous solution",
     "Tests warm start from the exact solution, where almost any handling converges immediately.",
     [QS], [("initial iterates", QS + " (solve)")], note=QNOTE)
prop("Q10", "Infinite, equal and contradictory bounds are classified correctly",
     "A row without finite bounds never affects optimality or infeasibility decisions, one-sided rows act on their finite side only, equality rows are weighted as such, and a row whose bounds contradict each other "
     "(lower above upper, lower +inf or upper -inf) makes the problem primal infeasible before the first iteration. Polishing never treats an infinite bound as active.",
     ["inputs"], "all combinations of finite, infinite, equal and crossed bounds per row",
     "The combinations per row multiply; tests cover three or four of them.",
     [QS], [("row weights", QS + " (solve)"), ("certificates", QS + " (check_stopping)"), ("active set", QS + " (polish_qp)")], note=QNOTE)
prop("Q11", "Dense, static and sparse problems are treated alike",
     "The dense dynamic, the fixed-size and the sparse versions of the solver implement the same method: for the same problem they form the same system, iterates, stopping decisions, statuses, polishing and results.",
     ["inputs", "programs"], "all problems representable in several shapes",
     "The code has separate branches per shape; tests compare them on one or two problems with the same sparsity.",
     [QS], [("if constexpr (sparse) branches", QS)], note=QNOTE)
prop("Q12", "The returned fields are consistent with each other",
     "The returned objective is the caller's cost at the returned primal point (polished or not), the iteration count is the number of iterations performed, primal and dual have the dimensions of the problem and are in its units, "
     "and the solution stored in the solver is the returned one.",
     ["inputs", "configurations"], "all problems, settings, with and without polishing",
     "Tests compare the objective only for unpolished well scaled problems.",
     [QS], [("result", QS + " (solve)")], note=QNOTE)


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "mkdir -p build && sh tool/build.sh build/astex",
         "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
                     "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "other", "level_note": NOTE[i]} for i in TECH],
         "not_applicable": NA,
         "notes": "All checks are static analyses of the current syntax trees (clang front end); see DESIGN.md. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import importlib.util
    for extra in ("props_more.py",):
        p = os.path.join(HERE, "gen", extra)
        if os.path.exists(p):
            exec(open(p).read())
    write()
    print(len(PROPS), "properties,", len(TECH), "claimed")
