"""P32: 'Penalize' evaluates projections and adds a penalty that never favours infeasibility and adapts to the objective."""
import itertools

import numpy as np

from ..cases import bounds_st, frac, opt_st, own_seed
from ..core import Sub, require
from ..esref import Close, Cma, Stream, Vd, observed, start_mean
from ..trace import box_tol, gens, run
from hypothesis import strategies as st


class Weights:
    """Boundary weights of Hansen's CMA-ES box handling (Hansen, Niederberger, Guzzella, Koumoutsakos 2009)."""

    def __init__(self, n):
        self.n, self.w, self.hist, self.valid, self.ini = n, np.zeros(n), [1.0], False, True

    def step(self, f, mean, old, sigma, C, mueff, it):
        n, p = self.n, len(f)
        q1, q3 = np.percentile(f, 25), np.percentile(f, 75)
        delta = (q3 - q1) / n / C.mean() / sigma**2
        if delta == 0:
            delta = min(h for h in self.hist if h > 0)
        elif not self.valid:
            self.hist, self.valid = [], True
        self.hist = self.hist + [delta] if len(self.hist) < 20 + 3 * n / p else self.hist[1:] + [delta]
        out = np.abs(mean) > 1
        if (np.abs(np.abs(mean) - 1) < 1e-9).any() and not np.isin(np.abs(mean), [1.0]).any():
            raise Close
        if out.any():
            if self.ini:
                self.w = np.full(n, 2.0002 * np.median(self.hist))
                if self.valid and it > 2:
                    self.ini = False
            far = mean - np.clip(mean, -1, 1)
            limit = 3 * max(1, np.sqrt(n / mueff)) * sigma * np.sqrt(C)
            if (np.abs(np.abs(far) - limit) < 1e-6 * limit).any():
                raise Close
            up = out & (np.abs(far) > limit) & (np.sign(far) == np.sign(mean - old))
            self.w = np.where(up, self.w * 1.2 ** min(1, mueff / 10 / n), self.w)
        return self.w / np.exp(0.9 * (np.log(C) - np.log(C).mean()))


def samples(ref, m, Z, z1):
    """Candidate unrepaired samples of the generation, in standardised coordinates."""
    n = ref.n
    if m == "vdcma":
        s2 = float(ref.v @ ref.v)
        u = ref.v / np.sqrt(s2)
        Y = (Z + (np.sqrt(1 + s2) - 1) * np.outer(Z @ u, u)) * ref.d
        if z1 is not None:
            y = ref.dx / ref.d
            maha = float(y @ y - (y @ ref.v) ** 2 / (1 + s2))
            if not maha > 0:
                raise Close
            Y[0] = np.linalg.norm(z1) / np.sqrt(maha) * ref.dx
            Y[1] = -Y[0]
        yield ref.mean + ref.sigma * Y
        return
    D = ref.D
    if n > 1 and not np.array_equal(D, np.ones(n)) and (np.diff(np.sort(D)) < 1e-5 * D.max()).any():
        raise Close
    for signs in itertools.product((1.0, -1.0), repeat=n if not np.array_equal(ref.B, np.eye(n)) else 0):
        s = np.array(signs) if signs else np.ones(n)
        yield ref.mean + ref.sigma * (Z * D) @ (ref.B * s).T


def check(case):
    m, o = case["method"], case["opts"]
    p, n = o["popsize"], len(case["bounds"])
    t = run(case, callback=False, return_all=True)
    U, F, noise = observed(case, t)
    P = np.asarray(t.res.funall)
    require(P.shape == F.shape, "%s: funall has shape %s for %d generations of %d", m, P.shape, len(F), p)
    bt = np.asarray(case["bounds"], dtype=float)
    s = Stream(o["seed"])
    mean = start_mean(case, t.x0, s)
    ref = Cma(n, p, o["muperc"], o["sigma"], mean) if m == "cmaes" else Vd(n, p, o["muperc"], o["sigma"], mean, s.normals(n) / np.sqrt(n))
    wts = Weights(n)
    lab = {m}
    done = paid = 0
    sides = set()
    old = ref.mean.copy()
    for k in range(len(U)):
        what = f"{m}: generation {k + 1}"
        # observable without any model
        inner = (np.abs(U[k]) < 1 - 1e-9).all(axis=1)
        mag = np.abs(F[k]).max()
        require((P[k] - F[k] >= -4e-16 * mag).all(), "%s: recorded values %s are below the objective's %s", what, P[k].tolist(), F[k].tolist())
        require((P[k][inner] == F[k][inner]).all(), "%s: a sample strictly inside the bounds was penalised", what)
        try:
            dev = ref.sigma * (ref.D.min() if m == "cmaes" else np.sqrt(np.linalg.eigvalsh(ref.cov())[0]))
            if noise[k] > 1e-9 * dev or not np.isfinite(F[k]).all() or not dev > 0:
                raise Close
            Z = s.normals(p, n)
            z1 = s.normals(n) if m == "vdcma" and k > 0 else None
            best = None
            for A in samples(ref, m, Z, z1):
                err = float((np.abs(np.clip(A, -1, 1) - U[k]) / (ref.sigma + 1e-9 * np.abs(A))).max())
                if best is None or err < best[0]:
                    best = (err, A)
                if err < 1e-6:
                    break
            err, A = best
            if err >= 1e-6 and k and m == "cmaes" and n > 1 and ref.D.max() > 1e3 * ref.D.min():
                raise Close
            require(err < 1e-5, "%s (bounds at -1 and 1): the evaluated points are not the samples' projections onto the bounds: %s for samples %s", what, U[k].tolist(), A.tolist())
            eps = 1e-6 * ref.sigma
            A = np.where((np.abs(U[k]) < 1 - 1e-9), U[k], A)  # exact where not repaired
            feas = (np.abs(A) <= 1 - eps).all(axis=1)
            pen = P[k] - F[k]
            require((pen[feas] == 0).all(), "%s: feasible samples were penalised", what)
            far = np.clip(A, -1, 1) - A
            C = ref.diag() if m == "cmaes" else np.diag(ref.cov())
            w = wts.step(F[k], ref.mean, old, ref.sigma, C, ref.mueff, k + 1)
            want = (far**2) @ w
            tol = 1e-5 * want + 2e-5 * (np.abs(far) @ w) * ref.sigma + 1e-15 * mag + 1e-9 * eps**2 * w.max()
            bad = np.abs(pen - want) > tol
            require(not bad.any(), "%s (bounds at -1 and 1): penalties %s; the sum of squared distances to the bounds weighted by %s gives %s (mean %s, samples %s)", what, pen.tolist(), w.tolist(), want.tolist(), ref.mean.tolist(), A.tolist())
            if (want > 1e-12 * mag).any():
                paid += 1
                sides |= {"low"} if (ref.mean < -1).any() else set()
                sides |= {"high"} if (ref.mean > 1).any() else set()
            old = ref.mean.copy()
            done = k + 1
            ref.step(A, P[k])
        except Close:
            lab.add("untracked after %d" % (10 * (done // 10)))
            break
    if paid > 1:
        lab.add("nontrivial")
    return lab | {"mean-" + q for q in sides}


@st.composite
def cases(draw, late=False):
    m = draw(st.sampled_from(["cmaes", "vdcma"]))
    n = draw(st.integers(1, 4 if m == "cmaes" else 9))
    o = {
        "maxiter": draw(st.integers(2, 25)),
        "popsize": draw(st.integers(4, 14)),
        "sigma": draw(st.sampled_from([0.1, 0.3, 0.5, 1.0, 2.0, 0.02])),
        "muperc": draw(st.sampled_from([0.5, 0.5, 0.3, 1.0])),
        "constraints": "Penalize",
        "ftol": -np.inf,
        "seed": 0,
    }
    if draw(st.integers(0, 11)) == 0:  # more effective parents than ten per variable
        n = draw(st.integers(1, 2))
        o["popsize"], o["muperc"] = draw(st.integers(30, 90)), draw(st.sampled_from([0.5, 1.0]))
    base = draw(st.sampled_from(["lin", "lin", "quad", "rot", "l1", "hash"]))
    obj = {"base": base, "c": [draw(st.sampled_from([-3.0, -1.5, 1.2, 2.0, 0.5, -0.9])) + 0.013 for _ in range(draw(st.integers(1, 3)))], "w": [draw(st.sampled_from([1.0, -1.0, 0.5, 3.0])) for _ in range(3)]}
    if base in ("quad", "l1"):
        obj["w"] = [abs(v) for v in obj["w"]]
    if draw(st.integers(0, 2)) == 0:
        obj["post"] = [draw(st.sampled_from([["mul", 1e-6], ["mul", 1e6], ["add", 10.0], ["add", -5.0], ["quant", 1.0]]))]
    c = {"method": m, "bounds": draw(bounds_st(n)), "opts": o, "obj": obj}
    if draw(st.booleans()):
        c["x0"] = {"seed": draw(st.integers(0, 999)), "grid": 1000, "kind": "array", "at": draw(st.sampled_from([0.5, 0.05, 0.95])), "spread": 0.1}
    if late:  # the mean reaches a bound only after the spread history is full
        o["maxiter"], o["sigma"] = draw(st.one_of(st.integers(35, 70), st.integers(100, 130))), draw(st.sampled_from([0.02, 0.03, 0.05]))
        c["obj"] = {"base": draw(st.sampled_from(["lin", "quad", "l1"])), "c": [draw(st.sampled_from([1.5, -1.5, 1.1])) + 0.013, 0.3], "w": [1.0]}
        c["x0"] = {"seed": draw(st.integers(0, 999)), "grid": 1000, "kind": "array", "at": draw(st.sampled_from([0.5, 0.3, 0.7])), "spread": 0.1}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


def check_free(case):
    """Any configuration, without a model of the samples."""
    m = case["method"]
    t = run(case, callback=True, return_all=True)
    G, F = gens(t, case)
    P, X = np.asarray(t.res.funall), np.asarray(t.res.xall)
    b = np.asarray(case["bounds"], dtype=float)
    tol = box_tol(case["bounds"], 8)
    require((G >= b[:, 0] - tol).all() and (G <= b[:, 1] + tol).all(), "%s: a point outside the bounds was evaluated", m)
    pen = P - F
    mag = np.abs(F)
    fin = np.isfinite(F) & np.isfinite(P)
    require((pen[fin] >= -4e-16 * mag[fin]).all(), "%s: a recorded value is below the objective's", m)
    inner = ((G > b[:, 0] + tol) & (G < b[:, 1] - tol)).all(axis=2)
    require((P[inner & fin] == F[inner & fin]).all(), "%s: a sample strictly inside the bounds was penalised", m)
    lab = [m]
    if (pen[fin] > 1e-12 * mag[fin]).any() and inner.any():
        lab.append("nontrivial")
    return lab


ASSUMPTIONS = [
    "the seeded run draws its standard normals from numpy's global generator in generation order (as in P19, P20)",
    "a run is followed until a discrete decision is too close to call or precision is lost; the labels count where that happens",
    "CMA-ES is followed up to four variables (the signs of the principal axes are enumerated), VD-CMA up to nine",
]
SUBS = [
    Sub("reference", cases, check, 2000, 30000, "at least two generations with a positive penalty, all explained by the reference"),
    Sub("late", lambda: cases(late=True), check, 480, 6000, "at least two generations with a positive penalty, all explained by the reference"),
    Sub("free", lambda: opt_st(methods=("cmaes", "vdcma"), constraints="on", maxdim=10, maxiter=(2, 40), finite=True), check_free, 1200, 15000, "penalised and strictly interior samples both occur"),
]
