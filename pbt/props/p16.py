"""P16: each NA sample is a random point of the Voronoi cell of one of the best earlier models."""
import numpy as np

from ..cases import bounds_st, frac, obj_st, own_seed, x0_pop_st
from ..core import Sub, require
from ..trace import gens, run
from hypothesis import strategies as st


def cell_along(S, k, x, j):
    """Interval of the coordinate j (other coordinates as in x) inside the cell of S[k] and the unit cube."""
    d = (x - S) ** 2
    d[:, j] = 0
    rest = d.sum(axis=1)
    a, ra, c = S[k, j], rest[k], S[:, j]
    up, down = c > a, c < a
    # (y - a)^2 + ra <= (y - c)^2 + rc
    y = np.zeros(len(S))
    m = up | down
    y[m] = (c[m] * c[m] - a * a + rest[m] - ra) / (2 * (c[m] - a))
    return max(0.0, y[down].max(initial=0.0)), min(1.0, y[up].min(initial=1.0))


def add(pool, key, vec):
    pool[key] = [a + b for a, b in zip(pool.get(key, [0.0] * len(vec)), vec)]


def check(case):
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n = o["popsize"], len(b)
    nr = max(1, int(o["nrperc"] * p))
    t = run(case, callback=False)
    G, F = gens(t, case)
    w = b[:, 1] - b[:, 0]
    free = np.nonzero(w > 0)[0]
    require((t.X[:, w == 0] == b[w == 0, 0]).all(), "na: a fixed coordinate was moved")
    U = (G[:, :, free] - b[free, 0]) / w[free]
    err = 64 * (np.spacing(np.abs(b[free]).max(axis=1)) / w[free]).max(initial=0)
    checked = 0
    pool = {}
    W = np.full(U.shape, np.nan)
    lab = ["fixed"] if (w == 0).any() else []
    if not len(free):
        return ["allfixed"]
    for k in range(1, len(G)):
        S, f = U[:k].reshape(-1, len(free)), F[:k].reshape(-1)
        thr = np.sort(f)[nr - 1]
        elite = f <= thr
        strict = int(elite.sum()) == nr
        owner = []
        for i in range(p):
            d2 = ((S - U[k, i]) ** 2).sum(axis=1)
            tol = 1e-11 + 4 * err
            best, other = d2[elite].min(), d2[~elite].min(initial=np.inf)
            require(best <= other + tol, "na: sample %s (generation %d) is nearest to an earlier sample that is not among the %d best (squared distances %r, %r)", G[k, i].tolist(), k + 1, nr, float(best), float(other))
            checked += other < np.inf
            near = np.nonzero(d2 <= d2.min() + tol)[0]
            owner.append(int(near[0]) if len(near) == 1 else -1)
            if len(near) == 1 and strict and elite[near[0]]:
                # the walk starts at the model and draws one coordinate after the other
                m, own = len(free), S[near[0]]
                for j in range(m) if len(S) * m * m * p < 2e6 else {0, m // 2, m - 1}:
                    z = np.concatenate((U[k, i, : j + 1], own[j + 1 :]))
                    lo, hi = cell_along(S, near[0], z, j)
                    if hi - lo > 1e-4:
                        u = (z[j] - lo) / (hi - lo)
                        W[k, i, j] = u - 0.5
                        where = "last" if j == m - 1 else "first" if j == 0 else "middle"
                        add(pool, where, [u - 0.5, (u - 0.5) ** 2 - 1 / 12, 1, (u < 0.25)])
        if strict and min(owner) >= 0:
            cnt = [owner.count(int(q)) for q in np.nonzero(elite)[0]]
            require(max(cnt) - min(cnt) <= 1 and sum(cnt) == p, "na: generation %d: the %d best models were resampled %s times", k + 1, nr, cnt)
            lab.append("shared")
    if checked:
        lab.append("nontrivial")
    pairs = {"coordinates": (W[:, :, 1:], W[:, :, :-1]), "samples": (W[:, 1:], W[:, :-1]), "generations": (W[1:], W[:-1])}
    if nr < p:
        pairs["samples of one model"] = (W[:, nr:], W[:, :-nr])
    for key, (u, v) in pairs.items():
        q = (u * v)[np.isfinite(u * v)]
        if len(q):
            add(pool, "pairs " + key, [12 * float(q.sum()), float(len(q))])
    return {"labels": set(lab), "stats": pool}


def finalize(pool, tier):
    for key, v in pool.items():
        if key.startswith("pairs"):
            if v[1] > 500 and abs(v[0]) / np.sqrt(v[1]) > 7.5:
                yield key, f"positions of new samples within their cells are correlated between successive {key[6:]} ({v[0] / v[1]:.3f})"
        elif v[2] > 500:
            n = v[2]
            for name, z in (("mean", v[0] / np.sqrt(n / 12)), ("variance", v[1] / np.sqrt(n / 180)), ("lower quarter", (v[3] - n / 4) / np.sqrt(n * 3 / 16))):
                if abs(z) > 8:
                    yield key, f"position of new samples across their cell ({key} coordinate): {name} is {z:.1f} standard deviations off uniform over {n:.0f} samples"


@st.composite
def cases(draw, large=False):
    n = draw(st.integers(1, 12 if large else 5))
    p = draw(st.integers(11, 150) if large else st.integers(2, 10))
    o = {"maxiter": draw(st.sampled_from([3, 15, 30, 300 // p + 2, 3000 // p + 2]) if large else st.integers(2, 8)), "popsize": p, "nrperc": draw(frac(0.0, 1.0, 24).map(lambda v: max(v, 0.01))), "ftol": -np.inf, "seed": 0}
    c = {"method": "na", "bounds": draw(bounds_st(n, fixed=True)), "opts": o, "obj": draw(obj_st(inf=True, huge=True))}
    if draw(st.integers(0, 3)) == 0:
        c["x0"] = draw(x0_pop_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "brute-force nearest neighbour of every new sample; non-trivial when some earlier samples are outside the resampled set"
SUBS = [
    Sub("cells", cases, check, 4000, 50000, RULE),
    Sub("large", lambda: cases(large=True), check, 40, 800, RULE + "; populations of 11 to 150, up to thousands of samples"),
]
ASSUMPTIONS = ["squared-distance ties within 1e-11 (plus rounding of the bounds) count as either cell", "the spread over the cell is pooled along each coordinate, given those drawn before it and the resampled model's own values for the rest"]
