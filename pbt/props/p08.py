"""P08: watching a run does not change it."""
import math

import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, require
from ..trace import is_opt, run, same_result
from hypothesis import strategies as st

CORE = ("x", "fun", "status", "message", "success", "nfev", "nit", "accept_ratio")


def core(r):
    return {k: r[k] for k in CORE if k in r}


def check(case):
    m = case["method"]
    base = run(case, callback=False, return_all=False)
    full = run(case, callback=False, return_all=True)
    variants = {"history": full}
    seen = []
    variants["callback"] = run(case, callback=lambda X, s: seen.append(1), return_all=False)
    variants["both"] = run(case, callback=True, return_all=True)
    p = case["opts"].get("popsize")
    v = case["verb"]
    if is_opt(case):
        variants["partial"] = run(case, callback=False, return_all=True, verbosity=v)
        variants["best"] = run(case, callback=case["cb0"], return_all=True, verbosity=0.0)
    for name, t in variants.items():
        require(len(t.F) == len(base.F), "%s: %d evaluations with %s, %d without", m, len(t.F), name, len(base.F))
        require(np.array_equal(t.X, base.X), "%s: evaluated points change with %s", m, name)
        d = same_result(core(base.res), core(t.res))
        require(d is None, "%s: result changes with %s: %s", m, name, d)
    require("xall" not in base.res and "funall" not in base.res, "%s: history returned though not requested", m)
    require("xall" in full.res and "funall" in full.res, "%s: history missing though requested", m)
    d = same_result(full.res, variants["both"].res)
    require(d is None, "%s: history changes with a callback: %s", m, d)
    lab = [m]
    if is_opt(case):
        X, F = np.asarray(full.res.xall), np.asarray(full.res.funall)
        n = X.shape[2]
        q = int(math.ceil(v * p))
        part = variants["partial"].res
        if q > 0:
            require(np.shape(part.xall) == (len(X), q, n), "%s: partial history (verbosity %r of %d) has shape %s", m, v, p, np.shape(part.xall))
            require(np.shape(part.funall) == (len(X), q), "%s: partial history has shape %s", m, np.shape(part.funall))
            require(np.array_equal(part.xall, X[:, :q]) and np.array_equal(part.funall, F[:, :q]), "%s: partial history (verbosity %r) is not the leading part of the full one", m, v)
            if q < p:
                lab.append("partial")
        best = variants["best"].res
        bx, bf = np.asarray(best.xall), np.asarray(best.funall)
        require(bx.shape == (len(X), 1, n) and bf.shape == (len(X), 1), "%s: history of bests has shapes %s %s", m, bx.shape, bf.shape)
        for k in range(len(X)):
            require(bf[k, 0] == F[k].min(), "%s: verbosity 0 records %r, generation best is %r (generation %d)", m, float(bf[k, 0]), float(F[k].min()), k + 1)
            rows = X[k][F[k] == bf[k, 0]]
            require((rows == bx[k, 0]).all(axis=1).any(), "%s: verbosity 0 records a point that is not the best of generation %d", m, k + 1)
        if len(X) > 2 and 0 < q < p:
            lab.append("nontrivial")
    elif case["opts"]["maxiter"] > 2:
        lab.append("nontrivial")
    return lab


@st.composite
def ocases(draw, **kw):
    c = draw(opt_st(**kw))
    p = c["opts"]["popsize"]
    k = draw(st.integers(0, p))
    c["verb"] = draw(st.sampled_from([k / p, (k + 0.5) / (p + 1), 1.0, 0.5]))
    c["cb0"] = draw(st.booleans())
    return c


@st.composite
def scases(draw):
    c = draw(samp_st(maxiter=(1, 40)))
    c["verb"] = None
    return c


RULE = "run repeated with callback, full history, a random kept fraction and fraction zero; non-trivial when more than two generations ran and the kept fraction is proper (samplers: more than two samples)"
SUBS = [
    Sub("opt", lambda: ocases(maxiter=(1, 15), maxdim=5, maxpop=12), check, 2600, 35000, RULE),
    Sub("long", lambda: ocases(maxiter=(30, 200), tol="never", big=False), check, 120, 2000, RULE),
    Sub("samplers", scases, check, 1200, 15000, RULE),
]
