"""P02: optimizers never lose the best solution they are documented to return."""
import numpy as np

from ..cases import CMAS, POP, opt_st
from ..core import Sub, require
from ..trace import gens, run
from hypothesis import strategies as st


def check(case):
    m = case["method"]
    p = case["opts"]["popsize"]
    pen = case["opts"].get("constraints") == "Penalize"
    t = run(case, callback=True, return_all=pen or case["all"])
    fun = float(t.res.fun)
    lab = [m]
    if m in POP:
        best = t.F.min()
        require(fun == best, "%s: returned fun=%r but %r was seen during the run", m, fun, float(best))
        prev = np.inf
        for k, s in enumerate(t.cb):
            f = float(s["state"]["fun"])
            seen = t.F[: s["calls"]].min()
            require(f == seen, "%s iteration %d: reported best %r but %r already seen", m, k + 1, f, float(seen))
            require(f <= prev, "%s iteration %d: best increased from %r to %r", m, k + 1, prev, f)
            prev = f
        G, F = gens(t, case)
        run_best = np.minimum.accumulate(F.min(axis=1))
        imp = int((np.diff(run_best) < 0).sum())
        worse = bool((F[1:].min(axis=1) > run_best[:-1]).any()) if len(F) > 1 else False
        if imp and worse:
            lab.append("nontrivial")
    else:
        if pen:
            last = np.asarray(t.res.funall[-1])
            require(last.shape == (p,), "%s: last record has shape %s", m, last.shape)
        else:
            last = t.F[-p:]
        require(fun == last.min(), "%s: returned fun=%r but the final generation's best is %r", m, fun, float(last.min()))
        for k, s in enumerate(t.cb):
            f = float(s["state"]["fun"])
            g = np.asarray(s["state"]["funall"][-1]) if pen else t.F[s["calls"] - p : s["calls"]]
            require(f == g.min(), "%s iteration %d: reported best %r but the generation's best is %r", m, k + 1, f, float(g.min()))
        if len(t.cb) > 1 and len(np.unique(last)) > 1:
            lab.append("nontrivial")
    if np.isinf(t.F).any():
        lab.append("some infinite values")
    if np.abs(t.F[np.isfinite(t.F)]).max(initial=0) >= 1e30:
        lab.append("values beyond 1e30")
    return lab


@st.composite
def cases(draw, **kw):
    c = draw(opt_st(**kw))
    c["all"] = draw(st.booleans())
    return c


@st.composite
def collapsing(draw):
    """CPSO runs whose swarm collapses, so that restarts happen: strong attraction, little inertia, small boxes."""
    c = draw(opt_st(methods=("cpso",), maxdim=3, maxiter=(6, 60), tol="never", maxpop=16))
    o = c["opts"]
    o["competitivity"] = draw(st.sampled_from([1.0, 2.0, 0.5, 1.5]))
    o["inertia"] = draw(st.sampled_from([0.0, 0.1, 0.4, 0.7298]))
    k = draw(st.sampled_from([1.0, 0.01]))
    c["bounds"] = [[a * k, b * k] for a, b in [[-1.0, 1.0], [0.0, 0.5], [-2.0, -1.5]][: len(c["bounds"])]]
    while len(c["bounds"]) > 3:
        c["bounds"].pop()
    c["all"] = False
    return c


RULE = "random configuration with callback; POP methods: non-trivial when the best improves at least once and some generation is entirely worse than the best so far; CMA methods: more than one generation with distinct values"
SUBS = [
    Sub("pop", lambda: cases(methods=POP), check, 4500, 60000, RULE),
    Sub("cma", lambda: cases(methods=CMAS), check, 2000, 25000, RULE),
    Sub("restart", lambda: collapsing(), check, 1500, 20000, RULE),
    Sub("long", lambda: cases(maxiter=(40, 400), maxdim=10, maxpop=20, tol="never"), check, 320, 6000, RULE),
]
