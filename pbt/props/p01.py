"""P01: the reported optimum is an evaluated point with its true objective value."""
import numpy as np

from ..cases import opt_st
from ..core import Sub, require
from ..log import CallLog
from ..trace import box_tol, gens, run
from hypothesis import strategies as st


def check(case):
    t = run(case, callback=case["cb"], return_all=case["all"])
    m, con = case["method"], case["opts"].get("constraints")
    x = np.asarray(t.res.x, dtype=float)
    n = len(case["bounds"])
    require(x.shape == (n,), "%s: x has shape %s for %d variables", m, x.shape, n)
    require(np.ndim(t.res.fun) == 0, "%s: fun is not a scalar", m)
    fun = float(t.res.fun)
    vals = CallLog(t.X, t.F, case["bounds"]).value_at(x, m + ": returned x")
    pen = con == "Penalize"
    if pen:
        b = np.asarray(case["bounds"], dtype=float)
        tol = box_tol(case["bounds"], 16)
        strict = np.all(x > b[:, 0] + tol) and np.all(x < b[:, 1] - tol)
        if strict:
            require(np.any(vals == fun), "%s: fun=%r but the objective returned %s at the (strictly feasible) x", m, fun, vals.tolist())
        else:
            require(np.any((fun >= vals) | (fun >= vals - 1e-12 * np.abs(vals))), "%s: penalised fun=%r below objective value %s", m, fun, vals.tolist())
    else:
        require(np.any(vals == fun), "%s: fun=%r but the objective returned %s at the returned x", m, fun, vals.tolist())
    lab = [m, f"con={con}", f"ret={case['obj'].get('ret', 'float')}"]
    G, F = gens(t, case)
    if "x0" in case:
        lab.append("x0:" + case["x0"]["kind"])
    if len(F) > 1 and F[1:].min() < F[0].min() and len(np.unique(t.F)) > 2:
        lab.append("nontrivial")
    if np.isinf(t.F).any():
        lab.append("some infinite values")
    return lab


@st.composite
def cases(draw, **kw):
    c = draw(opt_st(**kw))
    c["cb"] = draw(st.booleans())
    c["all"] = draw(st.booleans())
    return c


RULE = "random optimizer configuration, serial; non-trivial when the best value improves after the first generation and more than two distinct values occur"
SUBS = [
    Sub("any", lambda: cases(), check, 5000, 60000, RULE),
    Sub("long", lambda: cases(maxiter=(30, 300), maxdim=10, maxpop=20, tol="never"), check, 480, 8000, RULE),
    Sub("ints", lambda: cases(rets=["int", "mixed", "npint"], x0="always"), check, 1500, 20000, RULE),
]
