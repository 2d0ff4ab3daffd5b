"""P05: termination status, message and success flag tell the truth."""
import math

import numpy as np

from ..cases import CMAS, POP, bounds_st, frac, opt_st, own_seed, x0_vec_st
from ..core import Sub, require
from ..esref import Close, Cma, Stream, Vd, observed, start_mean
from ..trace import gens, run
from hypothesis import strategies as st

MESSAGES = {
    -8: "TolX",
    -7: "TolFun",
    -6: "TolXUp",
    -5: "EqualFunValues",
    -4: "ConditionCov",
    -3: "NoEffectCoord",
    -2: "NoEffectAxis",
    -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol",
    1: "best solution value is lower than ftol",
}


def allowed(m):
    return (-1, 0, 1) if m in POP else tuple(MESSAGES) if m == "cmaes" else tuple(s for s in MESSAGES if s not in (-2, -4))


def norm(d, b, m):
    d = np.asarray(d, dtype=float)
    if m == "na":
        span = b[:, 1] - b[:, 0]
        d = np.where(span > 0, d / np.where(span > 0, span, 1.0), 0.0)
    return float(np.linalg.norm(d))


def coherent(m, r, o):
    s = r.status
    require(s in allowed(m), "%s: undocumented status %r", m, s)
    require(r.message == MESSAGES[s], "%s: status %s with message %r", m, s, r.message)
    require(bool(r.success) == (s >= 0) and isinstance(r.success, (bool, np.bool_)), "%s: status %s with success=%r", m, s, r.success)
    ftol = o.get("ftol", 1e-8)
    require(s < 0 or r.fun <= ftol, "%s: status %s but fun=%r > ftol=%r", m, s, r.fun, ftol)
    require(s != -1 or r.nit == o["maxiter"], "%s: 'maximum number of iterations' after %s of %s", m, r.nit, o["maxiter"])


def check_pop(case):
    m, o = case["method"], case["opts"]
    t = run(case, callback=True)
    r = t.res
    coherent(m, r, o)
    b = np.asarray(case["bounds"], dtype=float)
    ftol, xtol = o.get("ftol", 1e-8), o.get("xtol", 1e-8)
    G, F = gens(t, case)
    best = np.minimum.accumulate(F.min(axis=1))
    require(bool(r.success) == bool(best[-1] <= ftol), "%s: success=%s but best value %r vs ftol %r", m, r.success, float(best[-1]), ftol)
    require(r.success or r.nit == o["maxiter"], "%s: stopped after %s of %s iterations without success", m, r.nit, o["maxiter"])
    for k in range(1, len(best) - 1):
        require(best[k] > ftol, "%s: went on after generation %d met ftol (%r <= %r)", m, k + 1, float(best[k]), ftol)
    lab = [m, f"status={r.status}"]
    if r.success and len(F) > 1:
        eps = 1e-9 * xtol + 1e-12 * float(np.abs(b).max() if m != "na" else 1.0)
        if o.get("updating", "deferred") == "deferred":
            d = norm(t.cb[-1]["state"]["x"] - t.cb[-2]["state"]["x"], b, m)
            if r.status == 0:
                require(d <= xtol + eps, "%s: 'changes less than xtol' but the best moved %r > %r", m, d, xtol)
            else:
                require(d > xtol - eps, "%s: status 1 but the best moved %r <= xtol %r", m, d, xtol)
        elif r.status == 0:
            # immediate mode: some update of the best in the last generation was short enough
            g, gx = best[-2], t.cb[-2]["state"]["x"]
            ok = False
            for x, f in zip(G[-1], F[-1]):
                if f <= g:
                    ok |= f <= ftol and norm(x - gx, b, m) <= xtol + eps
                    g, gx = f, x
            require(ok, "%s: 'changes less than xtol' but no update of the best in the last generation was that short", m)
        if len(F) > 2 or r.status == 0:
            lab.append("nontrivial")
    if best[0] <= ftol:
        lab.append("initial generation meets ftol")
    return lab


class Script:
    """Values scripted per generation (serial runs): the best of generation g is levels[g], the others lie gaps above it."""

    def __init__(self, case):
        s = case["script"]
        self.p, self.gap, self.k = case["opts"]["popsize"], s["gap"], 0
        self.levels, v = [], 0.0
        jumps = {g: d for g, d in s["jumps"]}
        for g in range(case["opts"]["maxiter"]):
            v += jumps.get(g, 0.0)
            self.levels.append(v)

    def __call__(self, x):
        g, i = divmod(self.k, self.p)
        self.k += 1
        return self.levels[g] + self.gap * ((i * 5 + g) % self.p)


@st.composite
def scripted(draw):
    """Flat stretches of best values broken near the ends of the windows of the flatness tests."""
    n, p = draw(st.integers(1, 5)), draw(st.integers(2, 14))
    ilim = int(10.0 + 30.0 * n / p)
    at = st.one_of(st.integers(0, 5), st.integers(ilim - 3, ilim + 4), st.integers(1, ilim + 6), st.integers(2 * ilim - 3, 2 * ilim + 3))
    big = draw(st.sampled_from([0.0, 1.0, 1e-9]))
    jump = st.tuples(at, st.sampled_from([1.0, -1.0, 3e-10, -3e-10, 4e-11, -4e-11, 3e-12, -3e-12, 4e-13]))
    o = {"maxiter": 2 * ilim + draw(st.integers(0, 8)), "popsize": p, "sigma": 0.3, "ftol": -math.inf, "xtol": 0.0, "seed": draw(st.integers(0, 2**31))}
    if draw(st.booleans()):
        o["constraints"] = "Penalize"
        o["sigma"] = 0.01
    m = draw(st.sampled_from(CMAS))
    jumps = [list(j) for j in draw(st.lists(jump, min_size=0, max_size=3))]
    c = {"method": m, "bounds": [[-1.0, 1.0]] * n, "opts": o, "script": {"gap": big / p, "jumps": jumps}, "obj": {"base": "const"}}
    if "constraints" in o:  # keep the mean well inside
        c["x0"] = {"seed": 0, "grid": 2, "kind": "array", "at": 0.5, "spread": 0.0}
    return c


def check_cma(case):
    m, o = case["method"], case["opts"]
    n, p, mi = len(case["bounds"]), o["popsize"], o["maxiter"]
    t = run(case, callback=True, return_all=True, fun=Script(case) if "script" in case else None)
    r = t.res
    coherent(m, r, o)
    ftol, xtol = o.get("ftol", 1e-8), o.get("xtol", 1e-8)
    vals = np.asarray(r.funall)
    require(vals.shape[0] == r.nit, "%s: %d records for %s iterations", m, vals.shape[0], r.nit)
    best = vals.min(axis=1)
    ilim = int(10.0 + 30.0 * n / p)
    s, nit = r.status, r.nit
    require(s != -1 or nit == mi, "%s: status -1 after %s of %s", m, nit, mi)

    def equal(it, tol):
        return it >= ilim and np.ptp(best[it - ilim : it]) < tol

    def flat(it, tol):
        return it > 2 and max(best[:it].max(), vals[it - 1].max()) - min(best[:it].min(), vals[it - 1].min()) < tol

    for it in range(1, nit):
        require(best[it - 1] > ftol, "%s: went on after generation %d met ftol", m, it)
        require(not equal(it, 0.99e-10), "%s: best values equal over %d generations at iteration %d, but it went on", m, ilim, it)
        require(not flat(it, 0.99e-12), "%s: all values equal at iteration %d, but it went on", m, it)
    if nit < mi and best[-1] <= ftol:
        require(s in (0, 1), "%s: generation met ftol but status is %s", m, s)
    if nit < mi:
        require(s != -1, "%s: status -1 before the budget is used up", m)
    b = np.asarray(case["bounds"], dtype=float)
    xm, xs = b.mean(axis=1), 0.5 * (b[:, 1] - b[:, 0])
    last = (np.asarray(r.xall[-1]) - xm) / xs
    spread = last.std(axis=0)
    free = o.get("constraints") is None
    sig = o["sigma"]
    if s == -5:
        require(equal(nit, 1.01e-10), "%s: EqualFunValues at iteration %d (window %d) but the best values range over %r", m, nit, ilim, float(np.ptp(best[-ilim:])))
    if s == -7:
        require(flat(nit, 1.01e-12), "%s: TolFun but the values range over more than 1e-12", m)
    if s == -3:
        require(not free or spread.min() < 1e-6, "%s: NoEffectCoord with spread %s", m, spread.tolist())
    if s == -8:
        require(spread.max() < 1e-6 * max(1.0, sig), "%s: TolX with spread %s", m, spread.tolist())
    if s == -6 and free:
        require(spread.max() > sig, "%s: TolXUp with spread %s, initial sigma %r", m, spread.tolist(), sig)
    if s == -2 and free:
        sv = np.linalg.svd(last - last.mean(axis=0), compute_uv=False)
        require(sv.min() < 1e-6, "%s: NoEffectAxis with singular values %s", m, sv.tolist())
    lab = [m, f"status={s}"]
    if s != -1:
        lab.append("nontrivial")
    return lab


def check_xtol(case):
    """Successful unconstrained runs: the last move of the mean is recomputed by the reference."""
    m, o, n = case["method"], case["opts"], len(case["bounds"])
    p = o["popsize"]
    t = run(case, callback=False)
    r = t.res
    coherent(m, r, o)
    lab = [m, f"status={r.status}"]
    if r.status not in (0, 1) or r.nit == o["maxiter"]:
        return lab
    U, F, noise = observed(case, t)
    s = Stream(o["seed"])
    mean = start_mean(case, t.x0, s)
    ref = Cma(n, p, o["muperc"], o["sigma"], mean) if m == "cmaes" else Vd(n, p, o["muperc"], o["sigma"], mean, s.normals(n) / np.sqrt(n))
    try:
        for k in range(len(U)):
            ref.step(U[k], F[k])
    except Close:
        return lab + ["untracked"]
    d, xtol = float(np.linalg.norm(ref.mean - ref.old)), o["xtol"]
    eps = 1e-6 * xtol + 10 * noise.max() + 1e-14
    if r.status == 0:
        require(d <= xtol + eps, "%s: 'changes less than xtol' but the mean moved %r > %r (standardised coordinates)", m, d, xtol)
    else:
        require(d > xtol - eps or F[-1].min() == o["ftol"], "%s: status 1 but the mean moved %r <= xtol %r (standardised coordinates)", m, d, xtol)
    if len(F) > 1:
        lab.append("nontrivial")
    return lab


@st.composite
def xtols(draw):
    n = draw(st.integers(1, 7))
    m = draw(st.sampled_from(CMAS))
    o = {
        "maxiter": 80,
        "popsize": draw(st.integers(4, 14)),
        "sigma": draw(st.sampled_from([0.1, 0.5, 0.01, 1.0])),
        "muperc": draw(st.sampled_from([0.5, 0.3, 0.7, 1.0, 0.05])),
        "ftol": draw(st.sampled_from([0.5, 0.1, 0.02, 0.003])),
        "xtol": draw(st.sampled_from([0.0, 0.001, 0.01, 0.03, 0.1, 0.2, 0.5, 2.0])),
        "seed": 0,
    }
    obj = {"base": draw(st.sampled_from(["quad", "l1", "rastr"])), "c": [draw(st.integers(-16, 16)) / 16.0 + 0.013], "w": [1.0]}
    c = {"method": m, "bounds": draw(bounds_st(n)), "opts": o, "obj": obj}
    if draw(st.integers(0, 3)) == 0:
        c["x0"] = draw(x0_vec_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


def check_numeric(case):
    """Unconstrained runs: the numerical stop reason is recomputed from the reference's sigma, covariance and path."""
    m, o, n = case["method"], case["opts"], len(case["bounds"])
    p = o["popsize"]
    t = run(case, callback=False)
    r = t.res
    coherent(m, r, o)
    lab = [m, f"status={r.status}"]
    U, F, noise = observed(case, t)
    s = Stream(o["seed"])
    mean = start_mean(case, t.x0, s)
    ref = Cma(n, p, o["muperc"], o["sigma"], mean) if m == "cmaes" else Vd(n, p, o["muperc"], o["sigma"], mean, s.normals(n) / np.sqrt(n))
    for k in range(len(U)):
        try:
            if noise[k] > 1e-4 * ref.sigma * np.sqrt(np.linalg.eigvalsh(ref.decomposed if m == "cmaes" else ref.cov())[0]):
                raise Close
            ref.step(U[k], F[k])
        except Close:
            return lab + ["untracked"]
        if k + 1 < len(U):
            dev = ref.sigma * np.sqrt(ref.diag() if m == "cmaes" else np.diag(ref.sampled))
            require(0.2 * dev.min() > 0.95e-10, "%s: deviations %s after generation %d, but it went on", m, dev.tolist(), k + 1)
            require(dev.max() < 1.05e3 * ref.sigma0, "%s: deviations %s times the initial one after generation %d, but it went on", m, (dev / ref.sigma0).tolist(), k + 1)
            require(ref.sigma * max(np.abs(ref.pc).max(), dev.max() / ref.sigma) > 0.95e-11 * ref.sigma0, "%s: no coordinate can change after generation %d, but it went on", m, k + 1)
            if m == "cmaes":
                require(ref.D.max() < 1.05e7 * ref.D.min(), "%s: axis ratio %r after generation %d, but it went on", m, float(ref.D.max() / ref.D.min()), k + 1)
                i = int(np.mod(k + 1, n))
                gap = np.abs(np.delete(ref.D, i) - ref.D[i]).min(initial=np.inf)
                if gap > 1e-3 * ref.D[i]:
                    require(np.abs(0.1 * ref.sigma * ref.B[:, i] * ref.D[i]).max() > 0.95e-10, "%s: principal axis %d has no effect after generation %d, but it went on", m, i, k + 1)
    C = ref.diag() if m == "cmaes" else np.diag(ref.sampled)
    dev = ref.sigma * np.sqrt(C)
    if r.status == -2:
        i = int(np.mod(r.nit, n))
        ev = ref.D
        gap = np.abs(np.delete(ev, i) - ev[i]).min(initial=np.inf)
        if gap > 1e-3 * ev[i]:
            v = float(np.abs(0.1 * ref.sigma * ref.B[:, i] * ref.D[i]).max())
            require(v < 1.05e-10, "%s: NoEffectAxis but a tenth of principal axis %d is %r", m, i, v)
        else:
            require(0.1 * ref.sigma * ev[i] < 1.2e-10 * np.sqrt(n), "%s: NoEffectAxis with axis length %r", m, ref.sigma * ev[i])
    elif r.status == -3:
        require(0.2 * dev.min() < 1.05e-10, "%s: NoEffectCoord but the coordinate deviations are %s", m, dev.tolist())
    elif r.status == -4:
        c = ref.D.max() / ref.D.min()
        require(c > 0.95e7, "%s: ConditionCov but the axis ratio is %r", m, c)
    elif r.status == -6:
        require(dev.max() > 0.99e3 * ref.sigma0, "%s: TolXUp but the deviations are %s times the initial one", m, (dev / ref.sigma0).tolist())
    elif r.status == -8:
        x = ref.sigma * max(np.abs(ref.pc).max(), np.sqrt(C).max())
        require(x < 1.05e-11 * ref.sigma0, "%s: TolX but sigma * max(pc, deviations) is %r", m, x)
    if r.status in (-2, -3, -4, -6, -8):
        lab.append("nontrivial")
    return lab


@st.composite
def numeric(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 10)))
    m = draw(st.sampled_from(CMAS))
    k = draw(st.sampled_from(["conv", "conv", "div", "cond"]))
    o = {
        "maxiter": draw(st.integers(150, 500)),
        "popsize": draw(st.integers(6, 12)),
        "sigma": draw(st.sampled_from([0.1, 0.5, 0.01, 1.0, 50.0, 0.001])),
        "muperc": draw(st.sampled_from([0.5, 0.3, 0.7])),
        "ftol": -math.inf,
        "seed": 0,
    }
    if k == "conv":
        obj = {"base": draw(st.sampled_from(["quad", "l1", "rot"])), "c": [draw(st.sampled_from([0.0, 0.0, 0.3, -0.7]))], "w": [1.0, draw(st.sampled_from([1.0, 0.1, 30.0]))]}
        o["maxiter"] = 1500
    elif k == "div":
        obj = {"base": "lin", "w": [draw(st.sampled_from([1.0, 0.5])), -1.0]}
    else:
        n = max(n, 2)
        obj = {"base": "quad", "c": [0.0], "w": [1.0, draw(st.sampled_from([1e14, 1e-15, 1e16]))]}
        o["maxiter"] = 900
        o["sigma"] = draw(st.sampled_from([50.0, 1.0, 1000.0]))
    obj["post"] = [["mul", draw(st.sampled_from([1e20, 1e30, 1.0]))]]
    b = [[-5.12, 5.12]] * n if draw(st.booleans()) else [[-1.0, 1.0]] * n
    c = {"method": m, "bounds": b, "opts": o, "obj": obj}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


@st.composite
def stopping(draw, methods):
    """Runs that meet the value tolerance after a while: value tolerance comparable with the values found."""
    c = draw(opt_st(methods=methods, maxiter=(2, 40), x0="any"))
    if draw(st.booleans()):
        c["opts"]["ftol"] = draw(st.sampled_from([0.5, 2.0, 0.05, 1.0, 1.5]))
        c["opts"]["xtol"] = draw(st.sampled_from([0.0, 1e-2, 1.0, 1e-8, 100.0]))
        c["obj"] = {"base": draw(st.sampled_from(["quad", "l1", "rastr", "linf", "hash", "const"])), "c": [draw(st.integers(-16, 16)) / 16.0], "w": [1.0]}
        if draw(st.integers(0, 2)) == 0:
            c["obj"]["post"] = [["quant", draw(st.sampled_from([1.0, 4.0]))]]
    return c


@st.composite
def cma_stop(draw):
    """Long CMA runs on objectives that lead to each of the numerical stop reasons."""
    c = draw(opt_st(methods=CMAS, maxiter=(2, 60), maxdim=5, big=False, rets=["float"]))
    o = c["opts"]
    k = draw(st.integers(0, 5))
    o["ftol"] = draw(st.sampled_from([-math.inf, 1e-8, 0.0, 0.1]))
    o["xtol"] = draw(st.sampled_from([1e-8, 0.0, 0.1]))
    if k == 0:
        c["obj"] = {"base": "const", "post": [["add", draw(st.sampled_from([0.0, 100.0, -3.0]))]]}
    elif k == 1:  # equal best values but not flat
        c["obj"] = {"base": "quad", "c": [draw(st.integers(-8, 8)) / 16.0], "w": [1.0], "post": [["quant", 1.0], ["add", draw(st.sampled_from([0.0, 7.0]))]]}
        o["maxiter"] = draw(st.integers(15, 120))
        o["sigma"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
    elif k == 2:  # divergence
        c["obj"] = {"base": "lin", "w": [1.0, -1.0]}
        o["maxiter"] = draw(st.integers(40, 250))
        o["sigma"] = draw(st.sampled_from([0.01, 0.1]))
        o.pop("constraints", None)
        o["popsize"] = draw(st.integers(6, 14))
    elif k == 3:  # convergence to numerical precision
        c["obj"] = {"base": draw(st.sampled_from(["quad", "l1"])), "c": [draw(st.integers(-24, 24)) / 16.0], "w": [draw(st.sampled_from([1.0, 1e-3]))], "post": [["add", draw(st.sampled_from([0.0, 1.0]))]]}
        o["maxiter"] = draw(st.integers(100, 400))
        o["popsize"] = draw(st.integers(6, 12))
        o["ftol"] = draw(st.sampled_from([-math.inf, 1e-12]))
    elif k == 4:
        o["muperc"] = draw(frac(0.1, 1.0))
        o["maxiter"] = draw(st.integers(20, 150))
    return c


RULE = "POP: success reached after the initial generation (later than the second, or by xtol); CMA: stopped by anything but the iteration budget"
SUBS = [
    Sub("pop", lambda: stopping(POP), check_pop, 6000, 80000, RULE),
    Sub("cma", lambda: cma_stop(), check_cma, 1600, 25000, RULE),
    Sub("numeric", numeric, check_numeric, 320, 6000, "unconstrained CMA-ES/VD-CMA run ended by a numerical stop reason that the reference could recompute"),
    Sub("xtol", xtols, check_xtol, 800, 10000, "unconstrained CMA-ES/VD-CMA run that met ftol after its first generation and was followed by the reference"),
    Sub("scripted", scripted, check_cma, 1200, 20000, RULE),
    Sub("cma_any", lambda: opt_st(methods=CMAS, maxiter=(1, 40)), check_cma, 800, 10000, RULE),
    Sub("maxiter1", lambda: opt_st(methods=POP, maxiter=(1, 2)), check_pop, 800, 8000, RULE),
]
