"""P23: sampler chains and summaries are consistent."""
import numpy as np

from ..cases import samp_st
from ..core import Sub, require
from ..trace import run
from hypothesis import strategies as st


def check(case):
    m, mi, n = case["method"], case["opts"]["maxiter"], len(case["bounds"])
    t = run(case, callback=True, return_all=True)
    r = t.res
    xs, fs = np.asarray(r.xall), np.asarray(r.funall)
    require(xs.shape == (mi, n) and fs.shape == (mi,), "%s: %s samples and %s values for maxiter=%d", m, xs.shape, fs.shape, mi)
    require(r.nit == mi, "%s: nit=%s for %d samples", m, r.nit, mi)
    first = t.X[0]
    require(np.array_equal(xs[0], first) and fs[0] == t.F[0], "%s: first sample %s (value %r), first evaluation %s (value %r)", m, xs[0].tolist(), float(fs[0]), first.tolist(), float(t.F[0]))
    require(len(t.cb) == mi, "%s: %d reports for %d samples", m, len(t.cb), mi)
    acc = closed = 0
    for i in range(1, mi):
        lo, hi = t.cb[i - 1]["calls"], t.cb[i]["calls"]
        if np.array_equal(xs[i], xs[i - 1]):
            require(fs[i] == fs[i - 1], "%s: sample %d repeats the previous one with another value", m, i)
            if m == "mcmc":  # a proposal equal to the sample it starts from is always accepted
                acc += hi > lo and np.array_equal(t.X[hi - 1], xs[i])
            closed += m == "hmc" and hi > lo and np.array_equal(t.X[hi - 1], xs[i])  # the trajectory came back to its start: may count as accepted
            continue
        acc += 1
        hit = [j for j in range(lo, hi) if np.array_equal(t.X[j], xs[i])]
        require(hit, "%s: sample %d %s is neither the previous sample nor a proposal evaluated in that step", m, i, xs[i].tolist())
        require(any(t.F[j] == fs[i] for j in hit), "%s: sample %d has value %r, objective %r", m, i, float(fs[i]), float(t.F[hit[0]]))
        if m == "mcmc":
            require(hit[-1] == hi - 1, "%s: sample %d is not the last point evaluated in its step", m, i)
    k = int(np.argmin(fs))
    require(r.fun == fs[k], "%s: fun=%r, smallest sample value %r", m, float(r.fun), float(fs[k]))
    same = [i for i in np.nonzero(fs == fs[k])[0] if np.array_equal(xs[i], r.x)]
    require(same, "%s: x=%s is not a sample of value %r", m, np.asarray(r.x).tolist(), float(r.fun))
    require(acc / mi - 1e-12 <= r.accept_ratio <= (acc + closed) / mi + 1e-12, "%s: accept_ratio=%r with %d acceptances in %d samples", m, r.accept_ratio, acc, mi)
    if m == "hmc":
        require(r.nfev == len(t.F), "hmc: nfev=%s after %d calls", r.nfev, len(t.F))
    lab = [m, "moved" if acc else "still", "best=first" if k == 0 else "best later"]
    if (0 < acc < mi - 1) or k == 0:
        lab.append("nontrivial")
    return lab


RULE = "non-trivial when some but not all proposals were accepted, or the first sample is the best"


@st.composite
def climbing(draw):
    """Chains that start at the optimum, never move, or only climb."""
    c = draw(samp_st(x0="always"))
    c["x0"]["grid"] = 2
    c["obj"] = {"base": draw(st.sampled_from(["quad", "l1"] if not c.get("jac") else ["quad"])), "c": [0.0], "w": [1.0], "post": [["mul", draw(st.sampled_from([1.0, 100.0, 1e-3]))]]}
    return c


@st.composite
def still(draw):
    """Some or all coordinates have no step, or no width."""
    c = draw(samp_st(fixed=True))
    if draw(st.booleans()):
        n = len(c["bounds"])
        c["step"] = {"kind": "list", "v": [draw(st.sampled_from([0.0, 0.0, 0.1])) for _ in range(n)]} if draw(st.booleans()) else {"kind": "scalar", "v": draw(st.sampled_from([0.0, 0]))}
    return c


SUBS = [
    Sub("chains", samp_st, check, 4000, 50000, RULE),
    Sub("long", lambda: samp_st(maxiter=(60, 1000)), check, 240, 3000, RULE),
    Sub("at_optimum", climbing, check, 800, 10000, RULE),
    Sub("still", still, check, 800, 10000, RULE),
]
