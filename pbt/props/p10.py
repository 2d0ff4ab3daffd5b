"""P10: callback reports describe the run as it stands."""
import numpy as np

from ..cases import CMAS, opt_st, samp_st
from ..core import Sub, require
from ..log import CallLog, close
from ..trace import gens, inside, run, same_result
from hypothesis import strategies as st

DROPPED = {"success", "status", "message"}


def fields(m, state, r, k):
    want = set(r) - DROPPED
    require(set(state) == want, "%s: callback %d has fields %s, the final result %s", m, k, sorted(state), sorted(want))


def last_agrees(m, s, r):
    d = same_result(s["state"], r, [k for k in s["state"]])
    require(d is None, "%s: last report differs from the result: %s", m, d)


def prefix(m, k, state, r):
    for key in ("xall", "funall"):
        a, b = np.asarray(state[key]), np.asarray(r[key])
        require(len(a) == k, "%s: report %d carries %d records in %s", m, k, len(a), key)
        require(np.array_equal(a, b[:k]), "%s: report %d: %s is not the history up to then", m, k, key)


def check_opt(case):
    m, o = case["method"], case["opts"]
    p, n = o["popsize"], len(case["bounds"])
    full = case["all"]
    pen = o.get("constraints") == "Penalize"
    t = run(case, callback=True, return_all=full, verbosity=case["verb"])
    r = t.res
    require(len(t.cb) == r.nit, "%s: %d reports for %s iterations", m, len(t.cb), r.nit)
    G, GF = gens(t, case)
    scale = np.abs(np.asarray(case["bounds"], dtype=float)).max(axis=1)
    pop = popf = None
    for k, s in enumerate(t.cb, 1):
        X, state = s["X"], s["state"]
        fields(m, state, r, k)
        require(X.shape == (p, n), "%s: report %d: population has shape %s", m, k, X.shape)
        x = np.asarray(state["x"])
        require(x.shape == (n,) and np.ndim(state["fun"]) == 0, "%s: report %d: x has shape %s", m, k, x.shape)
        fun = float(state["fun"])
        if m == "de" and k > 1:
            for i in range(p):
                isnew, isold = close(X[i], G[k - 1, i], scale), close(X[i], pop[i], scale)
                old, new = popf[i], GF[k - 1, i]
                require((isnew and new <= old) or (isold and old <= new), "de: report %d: member %d is %s, neither the surviving parent nor the accepted trial", k, i, X[i].tolist())
                popf[i] = min(old, new)
            pop = X
        else:
            require(close(X, G[k - 1], scale), "%s: report %d: population is not the current one", m, k)
            if k == 1:
                pop, popf = X, GF[0].copy()
        seenX, seenF = (t.X[: k * p], t.F[: k * p]) if m not in CMAS else (G[k - 1], GF[k - 1])
        if not pen:
            require(fun == seenF.min(), "%s: report %d: fun=%r, best %s is %r", m, k, fun, "of the generation" if m in CMAS else "so far", float(seenF.min()))
            vals = CallLog(seenX, seenF, case["bounds"]).value_at(x, f"{m}: report {k}: x")
            require((vals == fun).any(), "%s: report %d: x has value %s, fun=%r", m, k, vals.tolist(), fun)
        else:
            require(fun >= seenF.min() or fun >= seenF.min() - 1e-12 * abs(seenF.min()), "%s: report %d: fun=%r below every objective value of the generation", m, k, fun)
            CallLog(seenX, seenF, case["bounds"]).value_at(x, f"{m}: report {k}: x")
            if full and np.asarray(state["funall"]).shape[1] == p:
                require(fun == np.asarray(state["funall"])[-1].min(), "%s: report %d: fun is not the generation's best", m, k)
        require(state["nit"] == k and state["nfev"] == k * p, "%s: report %d: nit=%s nfev=%s", m, k, state["nit"], state["nfev"])
        if full:
            prefix(m, k, state, r)
    last_agrees(m, t.cb[-1], r)
    lab = [m, "history" if full else "no history"]
    if r.nit > 2:
        lab.append("nontrivial")
    return lab


def check_samp(case):
    m, n, mi = case["method"], len(case["bounds"]), case["opts"]["maxiter"]
    full = case["all"]
    t = run(case, callback=True, return_all=full)
    ref = t.res if full else run(case, callback=False, return_all=True).res
    require(len(t.cb) == mi, "%s: %d reports for %d samples", m, len(t.cb), mi)
    chain, cf = np.asarray(ref.xall), np.asarray(ref.funall)
    for k, s in enumerate(t.cb, 1):
        state = s["state"]
        fields(m, state, t.res, k)
        require(s["X"].shape == (n,) and np.array_equal(s["X"], chain[k - 1]), "%s: report %d: sample is not the current one", m, k)
        fun, x = float(state["fun"]), np.asarray(state["x"])
        require(fun == cf[:k].min(), "%s: report %d: fun=%r, best sample so far %r", m, k, fun, float(cf[:k].min()))
        require(((chain[:k] == x).all(axis=1) & (cf[:k] == fun)).any(), "%s: report %d: x is not the best sample so far", m, k)
        require(state["nit"] == k, "%s: report %d: nit=%s", m, k, state["nit"])
        if full:
            prefix(m, k, state, t.res)
    if mi > 1:
        last_agrees(m, t.cb[-1], t.res)
    return [m, "nontrivial"] if len(np.unique(cf)) > 2 else [m]


@st.composite
def ocases(draw, **kw):
    c = draw(opt_st(**kw))
    c["all"] = draw(st.booleans())
    c["verb"] = draw(st.sampled_from([1.0, 1.0, 0.5, 0.0]))
    return c


@st.composite
def scases(draw):
    c = draw(samp_st(maxiter=(1, 40)))
    c["all"] = draw(st.booleans())
    return c


RULE = "every report of a random run checked against the recorded calls and the final history; non-trivial when more than two iterations ran (samplers: more than two distinct values)"
SUBS = [
    Sub("opt", lambda: ocases(maxiter=(1, 20)), check_opt, 3200, 40000, RULE),
    Sub("long", lambda: ocases(maxiter=(40, 300), tol="never", big=False), check_opt, 120, 2000, RULE),
    Sub("samplers", scases, check_samp, 1600, 20000, RULE),
]
