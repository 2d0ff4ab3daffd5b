"""P33: undefined (NaN) objective values count as infinite and never win; diverged trajectories are rejected."""
import numpy as np

from ..cases import CMAS, bounds_st, frac, opt_st, own_seed, samp_st
from ..core import Sub, require
from ..trace import gens, is_opt, run, same_result
from hypothesis import strategies as st


def swap(case):
    """The same problem with undefined values instead of infinite ones."""
    post = [[{"infhalf": "nanhalf", "infabove": "nanabove"}.get(k, k), v] for k, v in case["obj"]["post"]]
    return {**case, "obj": {**case["obj"], "post": post, "ret": case["obj"].get("ret", "float")}}


def check_same(case):
    m = case["method"]
    inf = run(case, callback=case["cb"], return_all=True)
    nan = run(swap(case), callback=case["cb"], return_all=True)
    bad = np.isnan(nan.raw)
    lab = {m, "con=%s" % case["opts"].get("constraints"), "upd=" + case["opts"].get("updating", "-")}
    if not bad.any():
        return lab
    if not is_opt(case):
        # a chain started at an undefined point may go on in any way until it is defined; started elsewhere it never gets there
        if bad[0]:
            return lab | {"undefined start"}
        require(not np.isnan(np.asarray(nan.res.funall)).any(), "%s: a sample with undefined value was accepted", m)
        require(not np.isinf(np.asarray(nan.res.funall)).any(), "%s: a sample with infinite value was accepted", m)
    d = same_result(inf.res, nan.res)
    require(d is None, "%s: undefined values change the run more than infinite ones: %s (infinite vs undefined)", m, d)
    a, b = inf.X, nan.X
    if case["opts"].get("workers", 1) != 1:  # threads log in any order
        a, b = a[np.lexsort(a.T)], b[np.lexsort(b.T)]
    require(np.array_equal(a, b), "%s: other points are evaluated when the objective is undefined instead of infinite", m)
    for k, (a, b) in enumerate(zip(inf.cb, nan.cb)):
        d = same_result(a["state"], b["state"])
        require(d is None and np.array_equal(a["X"], b["X"]), "%s: report %d differs for undefined and infinite values: %s", m, k, d)
    if bad.any() and not bad.all():
        lab.add("nontrivial")
    return lab


def check_best(case):
    """Values above a threshold or in half of the box are infinite or undefined: the best reported is defined."""
    m, o = case["method"], case["opts"]
    p = o["popsize"]
    if case["nan"]:
        case = swap(case)
    t = run(case, callback=True, return_all=True)
    G, F = gens(t, case)
    F = np.where(np.isnan(F), np.inf, F)
    pen = o.get("constraints") == "Penalize"
    P = np.asarray(t.res.funall)
    require(not np.isnan(P).any(), "%s: undefined values recorded", m)
    if m in CMAS:
        require((np.isfinite(P) == np.isfinite(F)).all(), "%s: recorded values %s where the objective is %s", m, P.tolist(), F.tolist())
    seen = False
    for k, s in enumerate(t.cb):
        fun = float(s["state"]["fun"])
        ref = F[: k + 1].min() if m not in CMAS else (P[k].min() if pen else F[k].min())
        require(fun == ref, "%s: report %d: best %r, smallest %s value %r", m, k + 1, fun, "recorded" if pen else "evaluated", float(ref))
        seen = seen or np.isfinite(ref)
    require(float(t.res.fun) == ref, "%s: result %r, smallest value %r", m, float(t.res.fun), float(ref))
    require(np.isfinite(t.res.x).all(), "%s: returned point %s", m, np.asarray(t.res.x).tolist())
    bad = np.isinf(F)
    lab = {m, "con=%s" % o.get("constraints")}
    if bad.any() and seen:
        lab.add("nontrivial")
    if bad[0].all() and seen:
        lab.add("nothing defined at first")
    if bad[-1].any() and not bad[-1].all():
        lab.add("partly undefined at the end")
    return lab


def check_diverge(case):
    """HMC with steps too long for the objective: trajectories overflow."""
    n = len(case["bounds"])
    b = np.asarray(case["bounds"], dtype=float)
    mid, half, c = 0.5 * (b[:, 0] + b[:, 1]), 0.5 * (b[:, 1] - b[:, 0]), case["stiff"]
    e = case["power"]
    seen = []

    def fun(x):
        with np.errstate(all="ignore"):
            v = float(c * (((x - mid) / half) ** e).sum())
        seen.append((np.array(x), v))
        return v

    def jac(x):
        with np.errstate(all="ignore"):
            return c * e * ((x - mid) / half) ** (e - 1) / half

    with np.errstate(all="ignore"):
        t = run(case, fun=fun, jac=jac, callback=True, return_all=True, record=False)
    X, F = np.asarray(t.res.xall), np.asarray(t.res.funall)
    require(np.isfinite(X).all() and np.isfinite(F).all(), "hmc: a diverged trajectory was accepted: samples %s with values %s", X.tolist(), F.tolist())
    require(np.isfinite(t.res.x).all() and float(t.res.fun) == F.min(), "hmc: best sample %s, value %r", np.asarray(t.res.x).tolist(), float(t.res.fun))
    for k, s in enumerate(t.cb):
        require(np.isfinite(s["X"]).all() and float(s["state"]["fun"]) == F[: k + 1].min(), "hmc: report %d: sample %s, best value %r", k, s["X"].tolist(), float(s["state"]["fun"]))
    over = sum(not np.isfinite(v) or not np.isfinite(x).all() for x, v in seen)
    return ["nontrivial", "overflow"] if over else ["no overflow"]


@st.composite
def bad_obj(draw):
    base = draw(st.sampled_from(["quad", "lin", "l1", "rot", "rosen", "rastr", "rough", "hash"]))
    spec = {"base": base, "c": [draw(st.integers(-20, 20)) / 16.0 for _ in range(draw(st.integers(1, 3)))], "w": [1.0]}
    if base == "hash":
        spec["post"] = [["infabove", draw(st.sampled_from([0.2, 0.5, 0.9]))]]
    else:
        spec["post"] = [draw(st.sampled_from([["infhalf", 0.5], ["infhalf", 0.0], ["infhalf", -0.5], ["infhalf", -0.9], ["infabove", 2.0], ["infabove", 0.5], ["infabove", 20.0]]))]
        if draw(st.booleans()):
            spec["post"].insert(0, ["add", draw(st.sampled_from([-10.0, 1e3]))])
            if spec["post"][1][0] == "infabove":
                spec["post"][1][1] += spec["post"][0][1]
    r = draw(st.sampled_from(["float", "np", "0d"]))
    if r != "float":
        spec["ret"] = r
    return spec


@st.composite
def same(draw):
    c = draw(st.one_of(opt_st(objs=bad_obj(), maxiter=(1, 25)), opt_st(objs=bad_obj(), methods=("cmaes", "vdcma"), constraints="on", big=False), samp_st(objs=bad_obj(), methods=("mcmc",), maxiter=(2, 60))))
    c["cb"] = draw(st.booleans())
    if is_opt(c) and draw(st.integers(0, 7)) == 0:
        c["opts"]["workers"] = 2
        c["opts"]["backend"] = draw(st.sampled_from(["threading", "threading", "mpi"]))
    return c


@st.composite
def best(draw):
    c = draw(opt_st(objs=bad_obj(), maxiter=(1, 40), edge=True))
    c["nan"] = draw(st.booleans())
    return c


@st.composite
def diverge(draw):
    n = draw(st.integers(1, 4))
    o = {"maxiter": draw(st.integers(2, 25)), "nleap": draw(st.integers(1, 12)), "seed": 0}
    if draw(st.integers(0, 2)) == 0:
        o["constraints"] = "Reject"
    c = {"method": "hmc", "bounds": draw(bounds_st(n)), "opts": o, "step": {"kind": "scalar", "v": draw(st.sampled_from([0.1, 0.3, 1.0, 3.0]))}, "obj": {"base": "const"}}
    c["stiff"] = draw(st.sampled_from([1.0, 10.0, 1e3, 1e6]))
    c["power"] = draw(st.sampled_from([4, 6, 10]))
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


SUBS = [
    Sub("same", same, check_same, 2400, 24000, "the run with undefined values against the run with infinite ones; non-trivial when some but not all values are undefined"),
    Sub("best", best, check_best, 2400, 24000, "best so far (or of the generation) against all values; non-trivial when undefined and defined values occurred"),
    Sub("diverge", diverge, check_diverge, 1200, 12000, "non-trivial when a trajectory overflowed"),
]
