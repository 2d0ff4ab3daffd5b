"""P12: default initial populations are Latin hypercubes over the bounds; CMA and samplers start uniformly inside."""
import math

import numpy as np

from ..cases import POP, bounds_st, own_seed
from ..core import Sub, require
from ..trace import run
from hypothesis import strategies as st

BINS = 10


def link(stats, key, x, y):
    v = [len(x), x.sum(), y.sum(), (x * x).sum(), (y * y).sum(), (x * y).sum()]
    stats[key] = [a + float(b) for a, b in zip(stats.get(key, [0.0] * 6), v)]


def check_lhs(case):
    m, p = case["method"], case["opts"]["popsize"]
    t = run(case, callback=False)
    X = t.X[:p]
    b = np.asarray(case["bounds"], dtype=float)
    n = len(b)
    tol = 8 * np.spacing(np.abs(b).max(axis=1))
    fixed = b[:, 0] == b[:, 1]
    require((X >= b[:, 0] - tol).all() and (X <= b[:, 1] + tol).all(), "%s: initial population leaves the bounds", m)
    require((X[:, fixed] == b[fixed, 0]).all(), "%s: fixed coordinate moved in the initial population", m)
    free = [j for j in range(n) if not fixed[j]]
    ranks, within = {}, {}
    for j in free:
        w = b[j, 1] - b[j, 0]
        u = (np.sort(X[:, j]) - b[j, 0]) / w * p
        e = tol[j] / w * p
        k = np.arange(p)
        bad = (u < k - e) | (u > k + 1 + e)
        require(not bad.any(), "%s: coordinate %d: %d points are not one per slice: %s (in slice widths)", m, j, p, u.tolist())
        ranks[j] = np.argsort(np.argsort(X[:, j]))
        if e < 1e-6:
            within[j] = u - k
    stats = {}
    if p >= 16:
        ident = np.arange(p)
        for a, j in enumerate(free):
            require(not np.array_equal(ranks[j], ident), "%s: coordinate %d is not shuffled", m, j)
            stats["row0"] = [a + c for a, c in zip(stats.get("row0", [0, 0, 0]), [(ranks[j][0] + 0.5) / p - 0.5, (1 - 1 / p**2) / 12, 1])]
            r = np.corrcoef(ranks[j], ident)[0, 1] * np.sqrt(p - 1)
            stats["order"] = [a + c for a, c in zip(stats.get("order", [0, 0, 0]), [r, 1, 1])]
            for i in free[:a]:
                require(not np.array_equal(ranks[i], ranks[j]), "%s: coordinates %d and %d are shuffled together", m, i, j)
                require(not np.array_equal(ranks[i], p - 1 - ranks[j]), "%s: coordinates %d and %d are shuffled oppositely", m, i, j)
                r = np.corrcoef(ranks[i], ranks[j])[0, 1] * np.sqrt(p - 1)
                stats["pair"] = [a + c for a, c in zip(stats.get("pair", [0, 0, 0]), [r, 1, 1])]
    if p >= 3:
        for a, j in enumerate(free):
            for i in free[:a]:
                r = np.corrcoef(ranks[i], ranks[j])[0, 1] * np.sqrt(p - 1)
                key = "pair, few members" if p < 16 else "pair, many members"
                stats[key] = [x + y for x, y in zip(stats.get(key, [0, 0, 0]), [r, 1, 1])]
                if p >= 5:
                    q = 1.0 / math.factorial(min(p, 15))
                    e = float(np.array_equal(ranks[i], ranks[j]))
                    stats["same order"] = [x + y for x, y in zip(stats.get("same order", [0, 0, 0]), [e - q, q * (1 - q), 1])]
    # position within the slice: by slice, and by member for pairs of coordinates
    for a, j in enumerate(free):
        if j in within:
            link(stats, "jitter of neighbouring slices", within[j][1:], within[j][:-1])
            link(stats, "jitter of the first and last slice", within[j][:1], within[j][-1:]) if p > 1 else None
            for i in free[:a] if len(free) < 14 else free[:a][-1:]:
                if i not in within:
                    continue
                require(p < 4 or np.abs(within[i] - within[j]).max() > 1e-5, "%s: coordinates %d and %d have the same positions within their slices", m, i, j)
                link(stats, "jitter of one slice in two coordinates", within[i], within[j])
                link(stats, "jitter of one member in two coordinates", within[i][ranks[i]], within[j][ranks[j]])
    lab = [m] + (["nontrivial"] if p >= 3 and len(free) >= 2 else [])
    return {"labels": lab, "stats": stats}


def uniform_stats(m, u):
    out = {}
    for j, v in enumerate(u):
        k = min(BINS - 1, max(0, int(v * BINS)))
        h = [0] * BINS
        h[k] = 1
        key = f"{m}:bins"
        out[key] = [a + c for a, c in zip(out.get(key, [0] * BINS), h)]
    if len(u) > 1:
        out[f"{m}:pair"] = [sum((a - 0.5) * (c - 0.5) for a, c in zip(u[:-1], u[1:])), (len(u) - 1) / 144.0, len(u) - 1]
    return out


def check_start(case):
    m = case["method"]
    t = run(case, callback=False)
    b = np.asarray(case["bounds"], dtype=float)
    w = b[:, 1] - b[:, 0]
    if m in ("cmaes", "vdcma"):
        p, sig = case["opts"]["popsize"], case["opts"]["sigma"]
        x = t.X[:p].mean(axis=0)
        u = (x - b[:, 0]) / w
        slack = 20 * sig
        require((np.abs(t.X[:p] - x) <= 40 * sig * w).all(), "%s: first generation is not concentrated around one mean", m)
    else:
        u = (t.X[0] - b[:, 0]) / w
        slack = 1e-12
    require((u >= -slack).all() and (u <= 1 + slack).all(), "%s: starts outside the bounds (fractions %s)", m, u.tolist())
    return {"labels": [m, "nontrivial"], "stats": uniform_stats(m, u.tolist())}


def finalize(pool, tier):
    for k, v in pool.items():
        if k.endswith(":bins"):
            n = sum(v)
            if n >= 200:
                chi = sum((c - n / BINS) ** 2 / (n / BINS) for c in v)
                if chi > 75:  # 9 degrees of freedom, p < 1e-12
                    yield k, f"starting points are not uniform over the bounds: counts per tenth {v}"
        elif k.startswith("jitter"):
            n = v[0]
            if n >= 400:
                mx, my = v[1] / n, v[2] / n
                sx, sy = np.sqrt(max(v[3] / n - mx * mx, 0.0)), np.sqrt(max(v[4] / n - my * my, 0.0))
                if min(sx, sy) < 0.1:
                    yield k, f"{k}: the points hardly vary within their slices (standard deviation {min(sx, sy):.3g} of a slice)"
                elif abs(v[5] / n - mx * my) / (sx * sy) * np.sqrt(n) > 7.5:
                    yield k, f"{k} is correlated ({(v[5] / n - mx * my) / (sx * sy):.3f})"
        elif v[2] >= 50:
            if k == "same order":
                v = [max(v[0], 0) - 5, max(v[1], 1), v[2]]  # rare event: allow for five of them
            z = v[0] / np.sqrt(v[1])
            if abs(z) > 7:
                yield k, f"pooled statistic {k} is {z:.1f} standard deviations off"


@st.composite
def lhs_cases(draw, methods=POP):
    m = draw(st.sampled_from(methods))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.integers(7, 30)))
    p = draw(st.one_of(st.integers(2, 12), st.integers(16, 60), st.sampled_from([100, 150, 257])))
    o = {"maxiter": 1, "popsize": p, "seed": draw(st.integers(0, 2**31))}
    if m == "de" and p < 3:
        o["popsize"] = 3
    if m != "na":
        o["updating"] = draw(st.sampled_from(["immediate", "deferred"]))
        if draw(st.booleans()):
            o["constraints"] = "Random" if m == "de" else "Shrink"
    c = {"method": m, "bounds": draw(bounds_st(n, fixed=(m == "na"))), "opts": o, "obj": {"base": "quad", "c": [0.0], "w": [1.0]}}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


@st.composite
def start_cases(draw):
    m = draw(st.sampled_from(["cmaes", "vdcma", "mcmc", "hmc"]))
    n = draw(st.integers(1, 5))
    o = {"maxiter": 1, "seed": draw(st.integers(0, 2**31))}
    c = {"method": m, "bounds": draw(bounds_st(n)), "opts": o, "obj": {"base": "quad", "c": [0.0], "w": [1.0]}}
    if m in ("cmaes", "vdcma"):
        o["popsize"], o["sigma"] = 4, 1e-9
        if draw(st.booleans()):
            o["constraints"] = "Penalize"
            o["sigma"] = 1e-6
    else:
        if draw(st.booleans()):
            o["constraints"] = "Reject"
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "first generation without a guess; non-trivial with at least three members and two free coordinates"
SUBS = [
    Sub("lhs", lhs_cases, check_lhs, 4000, 40000, RULE),
    Sub("start", start_cases, check_start, 2400, 30000, "mean (CMA-ES/VD-CMA with tiny sigma) or first sample; pooled chi-square over tenths of the bounds; all non-trivial"),
]
