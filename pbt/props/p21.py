"""P21: MCMC is a Metropolis sampler of exp(-objective)."""
from math import erf

import numpy as np

from ..cases import bounds_st, frac, own_seed, x0_vec_st
from ..core import Sub, require
from ..trace import METHODS_SAMP, make_step, run
from hypothesis import strategies as st

MOM = 6  # n, z, z^2-1, z^4-3, |z|<0.5, successive product


def add(pool, key, vec):
    pool[key] = [a + b for a, b in zip(pool.get(key, [0.0] * len(vec)), vec)]


def normal_stats(pool, key, z):
    z = np.asarray(z, dtype=float).ravel()
    if len(z):
        add(pool, key, [len(z), z.sum(), (z**2 - 1).sum(), (z**4 - 3).sum(), (np.abs(z) < 0.5).sum() - 0.3829249225480262 * len(z)])


def normal_test(v):
    n = v[0]
    if n < 400:
        return
    var = {"mean": (v[1], n), "variance": (v[2], 2 * n), "fourth moment": (v[3], 96 * n), "mass within half a standard deviation": (v[4], 0.2363 * n)}
    for name, (s, w) in var.items():
        z = s / np.sqrt(w)
        if abs(z) > (14 if name == "fourth moment" else 7.5):
            yield name, z


def link_stats(pool, memory, rise, accepted, z):
    """Acceptance depends on the rise only: not on the perturbation that led there, nor on the decision before."""
    if 0 < rise < 50:
        q = float(np.exp(-rise))
        r, v = accepted - q, q * (1 - q)
        add(pool, "link perturbation", [r * z, v * z * z, 1])
        add(pool, "link size", [r * (z * z - 1), v * (z * z - 1) ** 2, 1])
        if memory:
            add(pool, "link before", [r * memory[0], v * memory[1], 1])
        memory[:] = [r, v]


def link_test(pool):
    for key, what in (("perturbation", "the sign of the perturbation"), ("size", "the size of the perturbation"), ("before", "the decision before")):
        v = pool.get("link " + key)
        if v and v[1] > 100 and abs(v[0]) / np.sqrt(v[1]) > 7.5:
            yield "link " + key, f"acceptance depends on {what} over {v[2]:.0f} proposals (z = {v[0] / np.sqrt(v[1]):.1f})"


def corr_test(pool, key):
    v = pool.get(key)
    if v and v[1] > 400 and abs(v[0]) / np.sqrt(v[1]) > 7.5:
        yield key, f"random increments are correlated ({key}: {v[0] / v[1]:.3f})"


BANDS = [0.2, 0.7, 1.5, 3.0, 50.0]


def accept_stats(pool, key, rise, accepted):
    if 0 < rise < BANDS[-1]:
        band = next(i for i, b in enumerate(BANDS) if rise < b)
        q = float(np.exp(-rise))
        add(pool, f"{key} {band}", [accepted - q, q * (1 - q), 1])


def accept_test(pool, key):
    for i in range(len(BANDS)):
        v = pool.get(f"{key} {i}")
        if v and v[1] > 10:
            z = v[0] / np.sqrt(v[1])
            if abs(z) > 7:
                yield f"{key} {i}", f"{v[2]:.0f} proposals with a rise below {BANDS[i]} (previous band excluded) were accepted {v[0]:+.0f} times relative to exp(-rise), z = {z:.1f}"


def norm_cdf(v):
    return 0.5 * (1.0 + erf(v / 2**0.5))


def check(case):
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    n, reject = len(b), o.get("constraints") == "Reject"
    t = run(case, callback=True, return_all=True)
    xs, fs = np.asarray(t.res.xall), np.asarray(t.res.funall)
    step = np.broadcast_to(np.asarray(make_step(case), dtype=float), (n,)) * 0.5 * (b[:, 1] - b[:, 0])
    size = max(1, int(o["perc"] * n))
    starts = list(range(0, n, size))
    pool, prev_z, last, memory = {}, None, np.full(n, np.nan), []
    lab = {"Reject" if reject else "free", "n=1" if n == 1 else "blocks=%d" % min(len(starts), 4)}
    up = down = stay = 0
    visited = set()
    for i in range(1, len(xs)):
        j = starts[(i - 1) % len(starts)]
        blk = np.zeros(n, dtype=bool)
        blk[j : j + size] = True
        lo, hi = t.cb[i - 1]["calls"], t.cb[i]["calls"]
        cur = xs[i - 1]
        # a point on the boundary is inside
        rest = ((cur >= b[:, 0]) & (cur <= b[:, 1]))[~blk].all()
        far = rest and ((cur - b[:, 0] > 9 * step) & (b[:, 1] - cur > 9 * step))[blk].all()
        if reject and not far:
            w = [(norm_cdf((b[k, 1] - cur[k]) / step[k]), norm_cdf((b[k, 0] - cur[k]) / step[k])) for k in np.nonzero(blk)[0]]
            q = float(np.prod([max(0.0, u - v) for u, v in w])) if rest else 0.0
            got = hi > lo and bool(((t.X[hi - 1] >= b[:, 0]) & (t.X[hi - 1] <= b[:, 1])).all())
            require(not got or q > 1e-12, "mcmc: step %d: a proposal out of reach of %s was evaluated", i, cur.tolist())
            add(pool, "inside", [got - q, q * (1 - q), 1])
            if not rest or ((cur == b[:, 0]) | (cur == b[:, 1])).any():
                add(pool, "inside, from the boundary", [got - q, q * (1 - q), 1])
        if hi == lo:
            require(reject, "mcmc: no proposal was evaluated in step %d", i)
            require(not far, "mcmc: step %d evaluated no proposal although every coordinate is nine step sizes from its bounds, or does not move", i)
            require(np.array_equal(xs[i], cur), "mcmc: step %d moved without evaluating a proposal", i)
            stay += 1
            continue
        y, fy = t.X[hi - 1], t.F[hi - 1]
        require(np.array_equal(y[~blk], cur[~blk]), "mcmc: step %d (block starting at %d of %d, size %d): proposal %s changes other coordinates of %s", i, j, n, size, y.tolist(), cur.tolist())
        require((y[blk] != cur[blk]).all(), "mcmc: step %d (block starting at %d of %d, size %d): proposal %s leaves coordinates of its block at %s", i, j, n, size, y.tolist(), cur.tolist())
        visited |= set(np.nonzero(blk)[0].tolist())
        z = ((y - cur) / step)[blk]
        require(np.abs(z).max() < 9, "mcmc: step %d: perturbation of %s standard deviations", i, z.tolist())
        if not reject or far:
            normal_stats(pool, "z", z)
            if prev_z is not None:
                add(pool, "serial", [float(z[0] * prev_z), 1.0])
            prev_z = float(z[-1])
            normal_stats(pool, "z first", z[:1])
            normal_stats(pool, "z last", z[-1:])
            if len(z) > 1:
                add(pool, "neighbours", [float((z[1:] * z[:-1]).sum()), len(z) - 1.0])
                add(pool, "ends", [float(z[0] * z[-1]), 1.0])
            if np.isfinite(last[blk]).all():
                add(pool, "same coordinate", [float((z * last[blk]).sum()), float(len(z))])
            last[blk] = z
        else:
            prev_z = None
            last[blk] = np.nan
        moved = np.array_equal(xs[i], y)
        require(moved or np.array_equal(xs[i], cur), "mcmc: sample %d is neither the proposal nor the previous sample", i)
        inside = ((y >= b[:, 0]) & (y <= b[:, 1])).all()
        if reject and not inside:
            require(not moved, "mcmc: infeasible proposal %s accepted", y.tolist())
            continue
        rise = float(fy - fs[i - 1])
        if rise <= 0:
            require(moved, "mcmc: step %d: proposal of value %r rejected at %r", i, float(fy), float(fs[i - 1]))
            down += 1
        else:
            require(rise < 50 or not moved, "mcmc: step %d: a rise of %r was accepted", i, rise)
            accept_stats(pool, "accept", rise, moved)
            link_stats(pool, memory, rise, moved, float(z[0]))
            up += moved
    if up and down:
        lab.add("nontrivial")
    if stay:
        lab.add("infeasible proposals")
    return {"labels": lab, "stats": pool}


def finalize(pool, tier):
    for k in ("z", "z first", "z last"):
        v = pool.get(k)
        for name, z in normal_test(v) if v else ():
            yield k, f"perturbations over {v[0]:.0f} coordinates ({k}): {name} is {z:.1f} standard deviations off a standard normal times the step size"
    for k in ("serial", "neighbours", "ends", "same coordinate"):
        yield from corr_test(pool, k)
    yield from link_test(pool)
    yield from accept_test(pool, "accept")
    for k in ("inside", "inside, from the boundary"):
        v = pool.get(k)
        if v and v[1] > 30 and abs(v[0]) / np.sqrt(v[1]) > 7.5:
            yield k, f"{v[2]:.0f} proposals near the bounds ({k}) were feasible {v[0]:+.0f} times relative to what a normal perturbation gives (z = {v[0] / np.sqrt(v[1]):.1f})"


def check_flat(case):
    """Nothing but feasible proposals of equal value: every one is taken, coordinates without room stay where they are."""
    b, o = np.asarray(case["bounds"], dtype=float), case["opts"]
    lo, hi = b.T
    mid = np.array([a if a == c else 0.5 * (a + c) for a, c in b])
    kw = {k: v for k, v in o.items() if k != "edge"}
    seen = []

    def fun(x):
        seen.append(np.array(x))
        return 2.5

    if case["method"] == "hmc" and case["jac"]:
        kw["jac"] = lambda x: np.zeros(len(x))
    r = METHODS_SAMP[case["method"]](fun, b, x0=mid, constraints="Reject", return_all=True, **kw)
    n, fixed = len(b), lo == hi
    xs = np.asarray(r.xall)
    require((xs[:, fixed] == lo[fixed]).all(), "%s: a coordinate whose bounds are equal moved", case["method"])
    blocks = [slice(0, n)]
    if case["method"] == "mcmc":
        size = max(1, int(o["perc"] * n))
        blocks = [slice(j, j + size) for j in range(0, n, size)]
    for i in range(1, len(xs)):
        k = np.zeros(n, dtype=bool)
        k[blocks[(i - 1) % len(blocks)]] = True
        k &= ~fixed
        require((xs[i, k] != xs[i - 1, k]).all(), "%s: sample %d repeats coordinates %s although the objective is constant and no bound is near (bounds %s)", case["method"], i + 1, np.nonzero(k & (xs[i] == xs[i - 1]))[0].tolist(), b.tolist())
    require(abs(r.accept_ratio * len(xs) - (len(xs) - 1)) < 1e-6, "%s: %g of %d feasible proposals of equal value accepted", case["method"], r.accept_ratio * len(xs), len(xs) - 1)
    return [case["method"], "fixed" if fixed.any() else "free"] + (["nontrivial"] if fixed.any() and not fixed.all() and len(xs) > 2 else [])


@st.composite
def flat(draw, m="mcmc"):
    n = draw(st.integers(2, 8))
    b = draw(bounds_st(n))
    for i in range(n):
        if draw(st.integers(0, 2)) == 0:
            b[i][1] = b[i][0]
    o = {"maxiter": draw(st.integers(2, 20)), "seed": 0, "stepsize": draw(st.sampled_from([1e-3, 5e-4]))}
    if m == "mcmc":
        o["perc"] = draw(frac(0.0, 1.0, 12))
    else:
        o["nleap"] = draw(st.integers(1, 5))
    return own_seed({"method": m, "bounds": b, "opts": o, "jac": draw(st.booleans())}, draw(st.integers(0, 2**24 - 1)))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    size = draw(st.integers(0, 11))
    if size == 0:
        n = draw(st.sampled_from([8, 12, 17, 25]))
    b = draw(bounds_st(n))
    o = {"maxiter": draw(st.integers(61, 600) if size == 1 else st.integers(2, 60)), "perc": draw(frac(0.0, 1.0, 12)), "seed": 0}
    if draw(st.booleans()):
        o["constraints"] = "Reject"
    kind = draw(st.sampled_from(["scalar", "list", "array", "tuple"]))
    val = st.sampled_from([0.1, 0.03, 0.5, 1.0])
    step = {"kind": kind, "v": draw(val) if kind == "scalar" else [draw(val) for _ in range(n)]}
    base = draw(st.sampled_from(["quad", "lin", "rastr", "rot", "const", "l1"]))
    obj = {"base": base, "c": [draw(st.integers(-24, 24)) / 16.0], "w": [1.0, draw(st.sampled_from([1.0, -1.0 if base == "lin" else 0.5]))], "post": [["mul", draw(st.sampled_from([1.0, 3.0, 10.0, 0.1]))]]}
    if draw(st.integers(0, 2)) == 0:
        obj["post"].append(["add", draw(st.sampled_from([1.0, -1.0])) * draw(st.sampled_from([10.0, 1e3, 1e5, 1e7]))])
    c = {"method": "mcmc", "bounds": b, "opts": o, "step": step, "obj": obj}
    if draw(st.booleans()):
        c["x0"] = draw(x0_vec_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


SUBS = [
    Sub("kernel", cases, check, 4000, 50000, "every step of every chain: block, acceptance of improvements, feasibility; non-trivial when both a rise and a fall were accepted"),
    Sub("flat", flat, check_flat, 300, 4000, "constant objective, tiny steps from the centre, some coordinates with equal bounds: every proposal is taken; non-trivial with free and fixed coordinates and more than one step"),
]
ASSUMPTIONS = ["under 'Reject' a step without an evaluation is taken as an infeasible proposal, unless all bounds are nine step sizes away", "pooled statistics are accepted within 7 standard deviations (fourth moment 14)"]
