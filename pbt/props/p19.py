"""P19: CMA-ES adapts mean, step size and covariance as published."""
import numpy as np

from ..cases import bounds_st, frac, own_seed, x0_vec_st
from ..core import Sub, require
from ..esref import Close, Cma, Stream, observed, start_mean
from ..trace import run
from hypothesis import strategies as st


def check(case):
    o, n = case["opts"], len(case["bounds"])
    p = o["popsize"]
    t = run(case, callback=False)
    U, F, noise = observed(case, t)
    s = Stream(o["seed"])
    ref = Cma(n, p, o["muperc"], o["sigma"], start_mean(case, t.x0, s))
    done, adapted, lab = 0, 0, set()
    for k in range(len(U)):
        Z = s.normals(p, n)
        tol = 1e-7 + 1e4 * noise[: k + 1].max() / (ref.sigma * ref.D.min())
        if not np.isfinite(F[k]).all() or tol > 1e-3:
            lab.add("precision")
            break
        Y = (U[k] - ref.mean) / ref.sigma
        have, want = Y @ ref.prec() @ Y.T, Z @ Z.T
        size = np.outer(*2 * [1 + np.sqrt(np.diag(want))])
        err = float(np.max(np.abs(have - want) / size))
        require(err <= tol, "cmaes: generation %d (n=%d, popsize=%d, %d parents) is not drawn from the normal distribution the published update gives: relative deviation %.2e from the reference, mean %s, sigma %r", k + 1, n, p, ref.mu, err, ref.mean.tolist(), ref.sigma)
        done = k + 1
        try:
            ref.step(U[k], F[k])
        except Close:
            lab.add("undecided")
            break
        if not np.array_equal(ref.decomposed, np.eye(n)):
            adapted += 1
    if adapted > 1 and done > 2:
        lab.add("nontrivial")
    lab.add("mu=1" if ref.mu == 1 else "mu<%d" % (4 if ref.mu < 4 else 40))
    if ref.cmu == 1 - ref.c1:
        lab.add("cmu capped")
    lab.add("gens<%d" % (10 * (1 + done // 10)))
    return lab


@st.composite
def cases(draw, deep=False):
    n = draw(st.integers(1, 8 if not deep else 20))
    p = draw(st.one_of(st.integers(2, 14), st.sampled_from([20, 40])))
    o = {
        "maxiter": draw(st.integers(2, 14 if not deep else 80)),
        "popsize": p,
        "sigma": draw(st.sampled_from([0.1, 0.01, 0.5, 1.0, 2.0, 5.0])),
        "muperc": draw(frac(0.0, 1.0, 24).map(lambda v: max(v, 0.04))),
        "ftol": -np.inf,
        "seed": 0,
    }
    base = draw(st.sampled_from(["hash", "quad", "lin", "rot", "rastr", "l1", "rosen"] if n > 1 else ["hash", "quad", "lin"]))
    obj = {"base": base, "c": [draw(st.integers(-24, 24)) / 16.0 + 0.013, 0.3], "w": [1.0, draw(st.sampled_from([0.1, 30.0, 1000.0]))]}
    if base in ("lin", "rot"):
        obj["w"] = [1.0, draw(st.sampled_from([-1.0, 0.5, 3.0]))]
    c = {"method": "cmaes", "bounds": draw(bounds_st(n)), "opts": o, "obj": obj}
    if draw(st.booleans()):
        c["x0"] = draw(x0_vec_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "every generation compared with the reference through rotation-invariant inner products; non-trivial when three or more generations were compared and the sampled covariance was adapted at least twice"
SUBS = [
    Sub("adapt", cases, check, 2400, 30000, RULE),
    Sub("long", lambda: cases(deep=True), check, 400, 6000, RULE),
]
ASSUMPTIONS = ["the seeded run draws its standard normals from numpy's global generator in generation order", "a generation with tied values among the parents, or a discrete decision within 1e-6 of its threshold, ends the comparison of that run"]
