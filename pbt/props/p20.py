"""P20: VD-CMA samples from its restricted covariance model and adapts as published."""
import numpy as np

from ..cases import bounds_st, frac, own_seed, x0_vec_st
from ..core import Sub, require
from ..esref import Close, Stream, Vd, observed, start_mean
from ..trace import run
from hypothesis import strategies as st


def check(case):
    o, n = case["opts"], len(case["bounds"])
    p = o["popsize"]
    t = run(case, callback=False)
    U, F, noise = observed(case, t)
    s = Stream(o["seed"])
    mean = start_mean(case, t.x0, s)
    ref = Vd(n, p, o["muperc"], o["sigma"], mean, s.normals(n) / np.sqrt(n))
    v0, d0 = ref.v.copy(), ref.d.copy()
    done, lab = 0, set()
    for k in range(len(U)):
        Z = s.normals(p, n)
        S = ref.cov()
        tol = 1e-7 + 1e4 * noise[: k + 1].max() / (ref.sigma * ref.d.min())
        if not np.isfinite(F[k]).all() or tol > 1e-3:
            lab.add("precision")
            break
        Y = (U[k] - ref.mean) / ref.sigma
        prec = np.linalg.inv(S)
        first = 0
        if k:
            r = float(np.linalg.norm(s.normals(n)))
            scale = np.abs(Y[0]).max() + np.abs(Y[1]).max()
            require(np.abs(Y[0] + Y[1]).max() <= tol * scale, "vdcma: generation %d: the injected samples are not symmetric about the mean: %s and %s", k + 1, Y[0].tolist(), Y[1].tolist())
            e = ref.dx / np.sqrt(ref.dx @ prec @ ref.dx)
            require(np.abs(Y[0] - r * e).max() <= max(tol, 1e-6) * (np.abs(r * e).max() + 1e-300), "vdcma: generation %d: the injected sample is %s, expected %s along the last mean shift", k + 1, Y[0].tolist(), (r * e).tolist())
            first = 2
        have, want = (Y @ prec @ Y.T)[first:, first:], (Z @ Z.T)[first:, first:]
        if len(want):
            size = np.outer(*2 * [1 + np.sqrt(np.diag(want))])
            err = float(np.max(np.abs(have - want) / size))
            require(err <= tol, "vdcma: generation %d (n=%d, popsize=%d, %d parents) is not drawn from N(mean, sigma^2 D(I+vv')D) of the published update: relative deviation %.2e, mean %s, sigma %r", k + 1, n, p, ref.mu, err, ref.mean.tolist(), ref.sigma)
        done = k + 1
        try:
            ref.step(U[k], F[k])
        except Close:
            lab.add("undecided")
            break
    if done > 2 and (n < 6 or not np.array_equal(ref.d, d0)):
        lab.add("nontrivial")
    lab.add("adapting" if not np.array_equal(ref.d, d0) else "fixed shape")
    lab.add("mu=1" if ref.mu == 1 else "mu<%d" % (4 if ref.mu < 4 else 40))
    lab.add("gens<%d" % (10 * (1 + done // 10)))
    return lab


@st.composite
def cases(draw, deep=False):
    n = draw(st.one_of(st.integers(1, 5), st.integers(6, 12 if not deep else 30), st.integers(6, 12)))
    p = draw(st.one_of(st.integers(2, 14), st.sampled_from([20, 40])))
    o = {
        "maxiter": draw(st.integers(2, 14 if not deep else 80)),
        "popsize": p,
        "sigma": draw(st.sampled_from([0.1, 0.01, 0.5, 1.0, 2.0, 5.0])),
        "muperc": draw(frac(0.0, 1.0, 24).map(lambda v: max(v, 0.04))),
        "ftol": -np.inf,
        "seed": 0,
    }
    base = draw(st.sampled_from(["hash", "quad", "lin", "rot", "rastr", "l1", "rosen"] if n > 1 else ["hash", "quad", "lin"]))
    obj = {"base": base, "c": [draw(st.integers(-24, 24)) / 16.0 + 0.013, 0.3], "w": [1.0, draw(st.sampled_from([0.1, 30.0, 1000.0]))]}
    if base in ("lin", "rot"):
        obj["w"] = [1.0, draw(st.sampled_from([-1.0, 0.5, 3.0]))]
    c = {"method": "vdcma", "bounds": draw(bounds_st(n)), "opts": o, "obj": obj}
    if draw(st.booleans()):
        c["x0"] = draw(x0_vec_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "every generation compared with the reference through rotation-invariant inner products, injected samples exactly; non-trivial when three or more generations were compared and, above five dimensions, D was adapted"
SUBS = [
    Sub("adapt", cases, check, 2400, 30000, RULE),
    Sub("long", lambda: cases(deep=True), check, 400, 6000, RULE),
]
ASSUMPTIONS = ["the seeded run draws its normals from numpy's global generator: mean, v, then per generation popsize * n and (from the second) n for the injected length", "ties among the parents or the injected samples end the comparison of that run"]
