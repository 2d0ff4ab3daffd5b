"""P11: the initial guess is used exactly as given."""
import numpy as np

from ..cases import POP, bounds_st, opt_st, samp_st
from ..core import Sub, require
from ..trace import make_x0, run
from ..env import stochopy
from hypothesis import strategies as st


def check_pop(case):
    m, p = case["method"], case["opts"]["popsize"]
    t = run(case, callback=False)
    want = np.array(make_x0(case), dtype=float)
    got = t.X[:p]
    if m == "na":
        b = np.asarray(case["bounds"], dtype=float)
        scale = np.abs(b).max(axis=1) + (b[:, 1] - b[:, 0])
        ok = np.all(np.abs(got - want) <= 8 * np.spacing(scale))
        fixed = b[:, 0] == b[:, 1]
        ok = ok and np.array_equal(got[:, fixed], want[:, fixed])
    else:
        ok = np.array_equal(got, want)
    require(ok, "%s: first generation %s, supplied population %s", m, got.tolist(), want.tolist())
    return [m, "x0:" + case["x0"]["kind"], "nontrivial"]


def check_samp(case):
    t = run(case, callback=False, return_all=True)
    want = np.array(make_x0(case), dtype=float)
    require(np.array_equal(t.res.xall[0], want), "%s: first sample %s, supplied %s", case["method"], t.res.xall[0].tolist(), want.tolist())
    require(np.array_equal(t.X[0], want), "%s: first evaluation at %s, supplied %s", case["method"], t.X[0].tolist(), want.tolist())
    return [case["method"], "x0:" + case["x0"]["kind"], "nontrivial"]


def check_spread(case):
    """One large generation around a supplied mean: sample mean and spread, six standard errors."""
    m, p, sig = case["method"], case["opts"]["popsize"], case["opts"]["sigma"]
    t = run(case, callback=False)
    x0 = np.array(make_x0(case), dtype=float)
    b = np.asarray(case["bounds"], dtype=float)
    n = len(b)
    half = 0.5 * (b[:, 1] - b[:, 0])
    require(len(t.X) == p, "%s: %d evaluations in one generation of %d", m, len(t.X), p)
    y = (t.X - x0) / half / sig
    var = y.var(axis=0)
    mean = y.mean(axis=0)
    sd = np.sqrt(np.maximum(var, 1.0))
    require((np.abs(mean) <= 6.5 * sd / np.sqrt(p)).all(), "%s: first generation is centred %s standard deviations away from the supplied point", m, mean.tolist())
    eps = 6.5 * np.sqrt(2.0 / p)
    if m == "cmaes":
        require((np.abs(var - 1.0) <= eps).all(), "cmaes: first generation has variances %s times (sigma * half width)^2", var.tolist())
        c = np.corrcoef(y.T) if n > 1 else np.eye(1)
        require((np.abs(c - np.eye(n)) <= 6.5 / np.sqrt(p)).all(), "cmaes: coordinates of the first generation are correlated: %s", c.tolist())
    else:
        # covariance sigma^2 (I + v v^T), v the initial direction: unit variance off one rank-one term
        C = np.cov(y.T).reshape(n, n)
        lam = np.linalg.eigvalsh(C)
        top = 10.0 * eps * (1 + lam[-1])
        require(lam[0] >= 1.0 - eps - 3.0 * np.sqrt(n / p), "vdcma: first generation is narrower than the given fraction: %s", lam.tolist())
        if n > 1:
            require(abs(np.median(lam[:-1]) - 1.0) <= eps + 3.0 * np.sqrt(n / p) + 0 * top, "vdcma: first generation has principal variances %s", lam.tolist())
        require(lam[-1] <= (1.0 + 12.0) * (1 + eps), "vdcma: principal variance %r", float(lam[-1]))
    return [m, "nontrivial", "x0:" + case["x0"]["kind"]]


@st.composite
def spread(draw):
    c = draw(opt_st(methods=("cmaes", "vdcma"), constraints="off", maxiter=(1, 1), x0="always", maxdim=6, big=False, rets=["float"]))
    c["opts"]["popsize"] = draw(st.sampled_from([1600, 12000]))
    if draw(st.booleans()):
        c["x0"]["grid"] = draw(st.sampled_from([1, 2]))
        c["opts"]["sigma"] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    c["opts"]["muperc"] = 0.5
    c["obj"] = {"base": "quad", "c": [0.25], "w": [1.0]}
    return c


@st.composite
def outside(draw):
    """Initial populations partly outside the bounds, without bound handling."""
    c = draw(opt_st(methods=("de", "pso", "cpso"), constraints="off", x0="always", maxiter=(1, 4)))
    return c


@st.composite
def fixed(draw):
    return draw(opt_st(methods=POP, x0="always", fixed=True, maxiter=(1, 4)))


RULE = "supplied guess in various containers and dtypes, grids that hit the bounds; all cases count as non-trivial"
SUBS = [
    Sub("population", lambda: opt_st(methods=POP, x0="always", maxiter=(1, 4)), check_pop, 3000, 30000, RULE),
    Sub("fixed", fixed, check_pop, 800, 6000, RULE),
    Sub("samplers", lambda: samp_st(x0="always", maxiter=(1, 6)), check_samp, 1600, 20000, RULE),
    Sub("spread", spread, check_spread, 240, 3000, "one generation of 1600 or 12000 around a supplied mean; mean and spread within 6.5 standard errors; all non-trivial"),
]
