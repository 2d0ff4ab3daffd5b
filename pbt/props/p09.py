"""P09: the recorded optimisation history is faithful."""
import numpy as np

from ..cases import opt_st
from ..core import Sub, require
from ..log import CallLog, close
from ..trace import box_tol, gens, run
from hypothesis import strategies as st


def check(case):
    m, o = case["method"], case["opts"]
    p, n = o["popsize"], len(case["bounds"])
    pen = o.get("constraints") == "Penalize"
    t = run(case, callback=case["cb"], return_all=True)
    r = t.res
    X, F = np.asarray(r.xall), np.asarray(r.funall)
    require(X.shape == (r.nit, p, n), "%s: xall has shape %s for %s iterations, population %d, %d variables", m, X.shape, r.nit, p, n)
    require(F.shape == (r.nit, p), "%s: funall has shape %s", m, F.shape)
    G, GF = gens(t, case)
    require(len(G) == r.nit, "%s: %d generations evaluated, %s reported", m, len(G), r.nit)
    scale = np.abs(np.asarray(case["bounds"], dtype=float)).max(axis=1)
    lab = [m, "upd=" + o.get("updating", "-")]

    def same(a, b):
        return close(a, b, scale)

    if m in ("de", "pso", "cpso", "na"):
        require(same(X[0], G[0]) and np.array_equal(F[0], GF[0]), "%s: first record is not the initial population", m)
    if m == "de":
        kept = repl = 0
        for k in range(1, len(X)):
            for i in range(p):
                f, x = F[k, i], X[k, i]
                old, new = F[k - 1, i], GF[k, i]
                require(f == min(old, new), "de: record %d, member %d has value %r; parent had %r, trial %r", k, i, float(f), float(old), float(new))
                isnew, isold = same(x, G[k, i]), same(x, X[k - 1, i])
                require((isnew and f == new) or (isold and f == old), "de: record %d, member %d: value %r does not belong to the recorded point %s", k, i, float(f), x.tolist())
                kept += not isnew
                repl += not isold
        if kept and repl:
            lab.append("nontrivial")
    elif pen:
        b = np.asarray(case["bounds"], dtype=float)
        tol = box_tol(case["bounds"], 16)
        require(same(X.reshape(-1, n), G.reshape(-1, n)), "%s: recorded points are not those evaluated", m)
        strict = ((X > b[:, 0] + tol) & (X < b[:, 1] - tol)).all(axis=2)
        require((F[strict] == GF[strict]).all(), "%s: a strictly feasible point is recorded with another value than the objective's", m)
        low = F < GF - 1e-12 * np.abs(GF)
        require(not low.any(), "%s: a penalised value is below the objective value", m)
        if strict.any() and not strict.all():
            lab.append("nontrivial")
    else:
        require(same(X.reshape(-1, n), G.reshape(-1, n)), "%s: recorded points are not those evaluated", m)
        require(np.array_equal(F, GF), "%s: recorded values are not those the objective returned", m)
        if len(X) > 2 and len(np.unique(F)) > 2:
            lab.append("nontrivial")
    best = F.min() if m in ("de", "pso", "cpso", "na") else F[-1].min()
    require(float(r.fun) == best, "%s: reported %r, best recorded value %r", m, float(r.fun), float(best))
    log = CallLog(X.reshape(-1, n), F.ravel(), case["bounds"])
    vals = log.value_at(r.x, m + ": x")
    require((vals == float(r.fun)).any(), "%s: reported best (x, fun) is not in the record", m)
    log = CallLog(t.X, t.F, case["bounds"])
    for x in X.reshape(-1, n):
        require(log.find(x), "%s: recorded point %s was never evaluated", m, x.tolist())
    return lab


def check_part(case):
    """Kept fraction below one: every kept value belongs to its point; fraction zero keeps the best."""
    m, o, v = case["method"], case["opts"], case["verb"]
    p, n = o["popsize"], len(case["bounds"])
    pen = o.get("constraints") == "Penalize"
    t = run(case, callback=case["cb"], return_all=True, verbosity=v)
    r = t.res
    X, F = np.asarray(r.xall), np.asarray(r.funall)
    q = max(1, int(np.ceil(v * p)))
    require(X.shape == (r.nit, q, n) and F.shape == (r.nit, q), "%s: fraction %r of %d: history of shapes %s, %s for %s iterations", m, v, p, X.shape, F.shape, r.nit)
    G, GF = gens(t, case)
    log = CallLog(t.X, t.F, case["bounds"])
    scale = np.abs(np.asarray(case["bounds"], dtype=float)).max(axis=1)
    for k in range(len(X)):
        for x, f in zip(X[k], F[k]):
            vals = log.value_at(x, f"{m}: record of generation {k + 1}")
            require((vals == f).any() or (pen and (f >= vals - 1e-12 * np.abs(vals)).any()), "%s: generation %d: recorded value %r of %s, the objective returned %s", m, k + 1, float(f), x.tolist(), vals.tolist())
        if m != "de" and v > 0:
            require(close(X[k], G[k][:q], scale), "%s: generation %d: kept points are not the first %d of the generation", m, k + 1, q)
        if v == 0 and not pen:
            want = GF[k].min() if m != "de" else GF[: k + 1].min()
            require(F[k, 0] == want, "%s: generation %d: fraction zero records %r, the best is %r", m, k + 1, float(F[k, 0]), float(want))
    if m in ("de", "pso", "cpso", "na") and v == 0:
        require(F.min() == r.fun, "%s: reported %r, best recorded value %r", m, float(r.fun), float(F.min()))
    lab = [m, "zero" if v == 0 else "part"]
    if len(X) > 2 and q < p:
        lab.append("nontrivial")
    return lab


@st.composite
def parts(draw):
    c = draw(cases(maxiter=(1, 20)))
    p = c["opts"]["popsize"]
    k = draw(st.integers(0, p - 1))
    c["verb"] = draw(st.sampled_from([0.0, 0.0, k / p, (k + 0.5) / p, 0.5, 1e-6]))
    return c


@st.composite
def cases(draw, **kw):
    c = draw(opt_st(**kw))
    c["cb"] = draw(st.booleans())
    return c


RULE = "full history of a random run; non-trivial: DE with both kept and replaced members; Penalize with both repaired and untouched points; others more than two generations with distinct values"
SUBS = [
    Sub("any", lambda: cases(maxiter=(1, 20)), check, 3500, 45000, RULE),
    Sub("na_fixed", lambda: cases(methods=("na",), fixed=True), check, 500, 6000, RULE),
    Sub("ties", lambda: cases(methods=("de", "pso", "cpso", "na"), rets=["int", "npint"]), check, 800, 10000, RULE),
    Sub("part", parts, check_part, 1200, 15000, "kept fraction below one over more than two generations"),
    Sub("long", lambda: cases(maxiter=(40, 300), tol="never", big=False), check, 120, 2000, RULE),
]
