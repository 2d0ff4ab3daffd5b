"""P03: with bound handling on, nothing outside the bounds is ever evaluated or kept."""
import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, require
from ..trace import inside, run
from hypothesis import strategies as st


def first_out(X, bounds, ulps=4):
    b = np.asarray(bounds, dtype=float)
    X = np.asarray(X, dtype=float).reshape(-1, len(b))
    for x in X:
        if not inside(x, bounds, ulps):
            return x.tolist()


def check_opt(case):
    m, b = case["method"], case["bounds"]
    t = run(case, callback=True, return_all=True, verbosity=case["verb"])
    require(inside(t.X, b), "%s evaluated a point outside the bounds: %s", m, first_out(t.X, b))
    require(inside(t.res.x, b), "%s returned x outside the bounds: %s", m, np.asarray(t.res.x).tolist())
    require(inside(t.res.xall, b), "%s recorded a point outside the bounds: %s", m, first_out(t.res.xall, b))
    for s in t.cb:
        require(inside(s["X"], b), "%s passed the callback a point outside the bounds: %s", m, first_out(s["X"], b))
        require(inside(s["state"]["x"], b), "%s reported x outside the bounds", m)
    bb = np.asarray(b, dtype=float)
    free = bb[:, 1] > bb[:, 0]
    w = np.where(free, bb[:, 1] - bb[:, 0], 1)
    near = ((np.minimum(t.X - bb[:, 0], bb[:, 1] - t.X) / w)[:, free] < 1e-6).any() if free.any() else False
    lab = [m, "upd=" + case["opts"].get("updating", "-")]
    if near:
        lab.append("touches a bound")
    if near or m in ("de", "na"):
        lab.append("nontrivial")
    return lab


def check_samp(case):
    m, b = case["method"], case["bounds"]
    t = run(case, callback=True, return_all=True)
    require(inside(t.res.xall, b, 0), "%s kept a sample outside the bounds: %s", m, first_out(t.res.xall, b, 0))
    require(inside(t.res.x, b, 0), "%s returned x outside the bounds", m)
    for s in t.cb:
        require(inside(s["X"], b, 0), "%s passed the callback a sample outside the bounds", m)
    moved = len(np.unique(t.res.xall, axis=0)) > 1
    lab = [m]
    if moved:
        lab += ["moved", "nontrivial"]
    return lab


@st.composite
def ocases(draw, **kw):
    c = draw(opt_st(constraints="on", edge=True, **kw))
    c["verb"] = draw(st.sampled_from([1.0, 0.0, 0.5]))
    return c


@st.composite
def brink(draw):
    """Chains from a corner of the box with steps of a few rounding errors."""
    c = draw(samp_st(constraints="on", x0="always", maxiter=(20, 120), big=False, jac=True))
    c["x0"].update(grid=1, kind="array")
    c["obj"] = {"base": "const"}
    if draw(st.booleans()):  # one bound much nearer to zero than the other
        for r in c["bounds"]:
            lo, up = draw(st.integers(1, 4000)) / 700.0, draw(st.integers(1, 4000)) / 70000.0
            r[:] = [-lo, up] if draw(st.booleans()) else [-up, lo]
    v = []
    for lo, hi in c["bounds"]:
        v.append(draw(st.sampled_from([0.5, 1.0, 3.0])) * float(np.spacing(min(abs(lo), abs(hi)) or 1e-3 * (hi - lo))) / (0.5 * (hi - lo)))
    c["step"] = {"kind": "array", "v": v}
    return c


RULE = "bound handler on, optimum often on/beyond the bounds; non-trivial when a point lies at a bound (PSO, CMA), always for DE/NA, for samplers when the chain moved"
SUBS = [
    Sub("opt", lambda: ocases(tol="never"), check_opt, 4000, 50000, RULE),
    Sub("fixed", lambda: ocases(fixed=True), check_opt, 1500, 15000, RULE),
    Sub("shrink", lambda: ocases(methods=("pso", "cpso"), x0="any", tol="never"), check_opt, 2000, 25000, RULE),
    Sub("long", lambda: ocases(maxiter=(40, 300), tol="never"), check_opt, 320, 5000, RULE),
    Sub("brink", brink, check_samp, 600, 8000, "chains from a corner of the box with steps of a few units in the last place; non-trivial when the chain moved"),
    Sub("samplers", lambda: samp_st(constraints="on"), check_samp, 2000, 25000, RULE),
]
