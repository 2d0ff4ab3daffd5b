"""P34: a larger budget or a tighter tolerance only continues the run."""
import copy
import math

import numpy as np

from ..cases import frac, obj_st, opt_st, samp_st
from ..core import Sub, require
from ..trace import is_opt, run, same_result
from hypothesis import strategies as st

ELITIST = ("de", "pso", "cpso", "na", "mcmc", "hmc")


def check(case):
    m = case["method"]
    c = copy.deepcopy(case)
    c["opts"].update(case["more"])
    what = ", ".join(f"{k} {case['opts'].get(k)!r} -> {v!r}" for k, v in case["more"].items())
    s = run(case, callback=True, return_all=True)
    t = run(c, callback=True, return_all=True)
    a, b = s.res, t.res
    k = len(s.X)
    require(len(t.X) >= k, "%s: %d evaluations instead of %d with %s", m, len(t.X), k, what)
    bad = np.nonzero((s.X != t.X[:k]).any(axis=1))[0]
    require(not len(bad), "%s: evaluation %d is at %s instead of %s with %s", m, bad[0] if len(bad) else 0, t.X[bad[:1]].tolist(), s.X[bad[:1]].tolist(), what)
    require(len(t.cb) >= len(s.cb), "%s: %d reports instead of %d with %s", m, len(t.cb), len(s.cb), what)
    for i, (u, v) in enumerate(zip(s.cb, t.cb)):
        require(np.array_equal(u["X"], v["X"]), "%s: report %d shows another population with %s", m, i + 1, what)
        d = same_result(u["state"], v["state"])
        require(d is None, "%s: report %d differs with %s: %s", m, i + 1, what, d)
    n = len(a["xall"])
    require(np.array_equal(a["xall"], b["xall"][:n]) and np.array_equal(a["funall"], b["funall"][:n]), "%s: the history of the shorter run is not the beginning of the longer one's (%s)", m, what)
    require(b["nit"] >= a["nit"], "%s: %d iterations instead of %d with %s", m, b["nit"], a["nit"], what)
    if m in ELITIST:
        require(b["fun"] <= a["fun"], "%s: best value %r instead of %r with %s", m, b["fun"], a["fun"], what)
    lab = [m, "+".join(sorted(case["more"]))]
    if is_opt(case) and set(case["more"]) == {"maxiter"} and a["nit"] < case["opts"]["maxiter"]:
        d = same_result(a, b)
        require(d is None, "%s: a run that ended before its budget (status %d) ends differently with %s: %s", m, a["status"], what, d)
        lab.append("ended by itself")
    if b["nit"] > a["nit"] > 1:
        lab.append("nontrivial")
    return lab


@st.composite
def budgets(draw, samplers=False, long=False, **kw):
    c = draw(samp_st(maxiter=(40, 1000) if long else (1, 40)) if samplers else opt_st(**kw))
    o = c["opts"]
    if c["method"] == "cpso":
        o["competitivity"] = draw(st.sampled_from([None, 0.0]))
    if draw(st.integers(0, 9)) == 0:
        o["maxiter"] = 1
    more = o["maxiter"] + draw(st.one_of(st.just(1), st.integers(1, 20), st.sampled_from([50, 100] if samplers or c["method"] != "na" and len(c["bounds"]) < 8 else [2])))
    if c["method"] in ("pso", "cpso") and not o.get("constraints"):
        if o["maxiter"] > 30:  # stable coefficients, for longer runs
            o["inertia"], o["cognitivity"], o["sociability"] = min(o["inertia"], 0.9), min(o["cognitivity"], 1.5), min(o["sociability"], 1.5)
        else:
            more = min(more, max(60, o["maxiter"]))
    c["more"] = {"maxiter": more}
    return c


@st.composite
def tolerances(draw):
    c = draw(opt_st(finite=True, maxiter=(3, 40), maxdim=4, big=False, objs=obj_st(bases=["quad", "l1", "rot", "rastr"], edge=False, post=False) if draw(st.integers(0, 3)) else None))
    o = c["opts"]
    o["ftol"] = draw(st.sampled_from([1e-3, 0.03, 0.1, 0.3, 1.0, 3.0, 10.0, 100.0]))
    o["xtol"] = draw(st.sampled_from([0.0, 1e-3, 0.1, 10.0]))
    if draw(st.integers(0, 3)) == 0:
        # no value is low enough to stop: the other tolerance alone must not matter
        # (CMA-ES and VD-CMA stop on it alone)
        o["ftol"] = -math.inf
        o["xtol"] = draw(st.sampled_from([0.1, 1.0, 10.0, 1000.0]))
        c["more"] = {"ftol": -math.inf, "xtol": o["xtol"] * draw(st.sampled_from([0.0, 0.1]))}
        if c["method"] in ("pso", "cpso"):
            c["method"] = "cpso"
            o["competitivity"] = draw(frac(0.5, 2.0))
            o["constraints"] = "Shrink"
            o["inertia"], o["cognitivity"], o["sociability"] = draw(frac(0.0, 0.7)), draw(frac(0.0, 1.5)), draw(frac(0.5, 2.0))
        return c
    c["more"] = {"ftol": o["ftol"] * draw(st.sampled_from([0.0, 1e-3, 0.1, 0.5]))}
    if draw(st.booleans()):
        c["more"]["xtol"] = o["xtol"] * draw(st.sampled_from([0.0, 0.1, 1.0]))
    return c


RULE = "the same seeded run with a larger maxiter or smaller tolerances must begin with the shorter run, report by report; non-trivial when both made more than one iteration and the second went further"
SUBS = [
    Sub("budget", lambda: budgets(maxiter=(1, 15), maxdim=5, maxpop=12), check, 2400, 30000, RULE),
    Sub("long", lambda: budgets(maxiter=(30, 400), tol="never", big=False, maxdim=4, maxpop=8), check, 160, 2500, RULE),
    Sub("tolerance", tolerances, check, 1600, 20000, RULE),
    Sub("chains", lambda: budgets(samplers=True, long=True), check, 240, 3000, RULE),
    Sub("samplers", lambda: budgets(samplers=True), check, 1200, 15000, RULE),
]
