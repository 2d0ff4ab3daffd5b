"""P29: CPSO differs from PSO only by restarting the worst particles of a collapsed swarm."""
import numpy as np

from ..cases import frac, own_seed
from ..core import Sub, require
from ..trace import gens, run
from .p15 import shortened
from hypothesis import strategies as st


def add(pool, key, vec):
    pool[key] = [a + float(b) for a, b in zip(pool.get(key, [0.0] * len(vec)), vec)]


def victims(X, gb, pf, it, o):
    """(certain victims, certain survivors) of a restart after iteration `it`; None when rounding decides."""
    p, n = X.shape
    mi, gamma = o["maxiter"], o.get("competitivity")
    if not gamma:
        return set(), set(range(p))
    delta = np.log(1.0 + 0.003 * p) / max(0.2, np.log(0.01 * mi))
    radius = np.sqrt(((X - gb) ** 2).sum(axis=1)).max() / np.sqrt(4.0 * n)
    if abs(radius - delta) < 1e-9 * delta:
        return None
    if radius > delta:
        return set(), set(range(p))
    y = (p - 1.0) / (1.0 + np.exp((it / mi - gamma + 0.5) / 0.09))
    if abs(y - np.round(y)) < 1e-9:
        return None
    nw = int(y)
    if nw == 0:
        return set(), set(range(p))
    order = sorted(range(p), key=lambda i: -pf[i])
    edge = pf[order[nw - 1]]
    if pf[order[nw]] == edge:  # tie at the edge: only those strictly worse or better are certain
        return {i for i in range(p) if pf[i] > edge}, {i for i in range(p) if pf[i] < edge}
    return set(order[:nw]), set(order[nw:])


def check(case):
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n = o["popsize"], len(b)
    lo, hi = b.T
    w, c1, c2 = o["inertia"], o["cognitivity"], o["sociability"]
    shrink = o.get("constraints") == "Shrink"
    deferred = o["updating"] == "deferred"
    t = run(case, callback=True)
    G, F = gens(t, case)
    X = G[0].copy()
    Vl, Vh = np.zeros((p, n)), np.zeros((p, n))
    pb, pf = G[0].copy(), F[0].copy()
    gi = int(np.argmin(pf))
    gb, gf = pb[gi].copy(), pf[gi]
    count = rest = few = 0
    tie = False
    dead, alive = set(), set(range(p))
    pool = {}
    for k in range(1, len(G)):
        scale = np.maximum(np.abs(b).max(axis=1), np.abs(G[k - 1 : k + 1]).reshape(-1, n).max(axis=0))
        tol = 64 * np.spacing(scale) * (1 + w + c1 + c2) + 1e-12 * max(np.abs(Vl).max(), np.abs(Vh).max())
        require(np.array_equal(t.cb[k]["X"], G[k]), "cpso: reported population is not the one evaluated")
        nl, nh = np.zeros((p, n)), np.zeros((p, n))
        mates = []
        for i in range(p):
            x1 = G[k, i]
            dx = x1 - X[i]

            def normal():
                a, g = c1 * (pb[i] - X[i]), c2 * (gb - X[i])
                l, h = w * Vl[i] + np.minimum(0, a) + np.minimum(0, g) - tol, w * Vh[i] + np.maximum(0, a) + np.maximum(0, g) + tol
                if ((dx >= l) & (dx <= h)).all():
                    return True
                touch = (np.abs(x1 - lo) <= tol) | (np.abs(x1 - hi) <= tol)
                return shrink and bool(touch.any()) and shortened(dx, l, h, tol)

            def restarted():
                if shrink:
                    a, z = lo, hi
                else:
                    c = np.array([lo, hi, lo + c2 * (gb - lo), hi + c2 * (gb - hi)])
                    a, z = c.min(axis=0), c.max(axis=0)
                return bool(((x1 >= a - tol) & (x1 <= z + tol)).all())

            where = f"cpso ({o['updating']}): iteration {k + 1}, particle {i} (personal best {pf[i]!r}, best {gf!r})"
            if i in dead:
                require(restarted(), "%s should have been restarted at rest inside the bounds; it moved to %s, bounds %s", where, x1.tolist(), b.tolist())
                fresh = True
                count += 1
                rest += c2 == 0
                if c2 == 0:  # it stays where it was put
                    u = (x1 - lo) / (hi - lo) - 0.5
                    add(pool, "restart position", [n, u.sum(), (u * u - 1 / 12).sum(), (u < -0.25).sum() - n / 4])
                    add(pool, "pairs coordinates", [12 * (u[1:] * u[:-1]).sum(), n - 1])
                    if len(mates):
                        add(pool, "pairs particles", [12 * (u * mates[-1]).sum(), n])
                    require(not any((u == v).any() for v in mates) and len(set(u.tolist())) == n, "%s was restarted at %s, which shares a coordinate (relative to the bounds) with another restart or repeats one", where, x1.tolist())
                    mates.append(u)
                    add(pool, "pairs of old and new positions", [12 * (u * (np.clip((X[i] - lo) / (hi - lo), 0, 1) - 0.5)).sum(), n])
            elif i in alive:
                require(normal(), "%s is not one of the worst particles of a collapsed swarm, but moved by %s from %s unlike any PSO move (velocity in [%s, %s], own best %s, swarm's best %s)", where, dx.tolist(), X[i].tolist(), Vl[i].tolist(), Vh[i].tolist(), pb[i].tolist(), gb.tolist())
                fresh = False
            else:  # tie
                a, z = normal(), restarted()
                require(a or z, "%s moved by %s: neither a PSO move nor a restart", where, dx.tolist())
                if a and z:
                    return ["tie"]
                fresh = z
            if fresh:
                l, h = x1 - hi, x1 - lo  # displacement since the hidden restart position
                if c2 < 1:
                    r = c2 / (1 - c2) * (gb - x1)
                    l, h = np.maximum(l, np.minimum(r, 0)), np.minimum(h, np.maximum(r, 0))
                    l, h = np.minimum(l, h), np.maximum(l, h)
                nl[i], nh[i] = l - tol * (c2 > 0), h + tol * (c2 > 0)
                pf[i] = np.inf
            else:
                nl[i] = nh[i] = dx
            f = F[k, i]
            if (f == pf[i] and not np.array_equal(x1, pb[i])) or (f == gf and not np.array_equal(x1, gb)):
                return ["tie"]  # which of two equally good points is kept is not specified
            if not deferred:
                if f <= pf[i]:
                    pb[i], pf[i] = x1, f
                if f <= gf:
                    gb, gf = x1.copy(), f
        Vl, Vh = nl, nh
        if deferred:
            for i in range(p):
                if F[k, i] < pf[i]:
                    pb[i], pf[i] = G[k, i], F[k, i]
            gi = int(np.argmin(pf))
            if pf[gi] < gf:
                gb, gf = pb[gi].copy(), pf[gi]
        X = G[k].copy()
        require(np.array_equal(t.cb[k]["state"]["x"], gb) or t.cb[k]["state"]["fun"] == gf, "cpso: the swarm's best was lost (fun %r, best evaluated so far %r)", t.cb[k]["state"]["fun"], gf)
        v = victims(X, gb, pf, k + 1, o)
        if v is None:
            return ["edge"]
        dead, alive = v
        few += 0 < len(dead) < p - 1
        tie = tie or len(dead) + len(alive) < p
    lab = [o["updating"], "Shrink" if shrink else "free"]
    if not o.get("competitivity"):
        lab.append("no-competition")
    if count:
        lab.append("restarts")
    if rest:
        lab.append("restart-position-visible")
    if few:
        lab.append("partial")
    if tie:
        lab.append("tied")
    if count and few:
        lab.append("nontrivial")
    return {"labels": lab, "stats": pool}


def finalize(pool, tier):
    for key, v in pool.items():
        if key == "restart position":
            n = v[0]
            for name, z in (("mean", v[1] / np.sqrt(n / 12)), ("variance", v[2] / np.sqrt(n / 180)), ("lower quarter", v[3] / np.sqrt(n * 3 / 16))):
                if n > 400 and abs(z) > 7.5:
                    yield key, f"{name} of the restart positions is {z:.1f} standard deviations off uniform over the bounds"
        elif v[1] > 400 and abs(v[0]) / np.sqrt(v[1]) > 7.5:
            yield key, f"restart positions are correlated ({key}: {v[0] / v[1]:.3f})"


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    p = draw(st.integers(2, 9))
    size = draw(st.integers(0, 15))
    if size <= 1:
        p = draw(st.integers(10, 48))
    elif size == 2:
        n = draw(st.integers(5, 14))
    zero = draw(st.integers(0, 2)) == 0
    o = {
        "maxiter": draw(st.one_of(st.integers(3, 14), st.sampled_from([40, 150]))),
        "popsize": p,
        "inertia": draw(frac(0.0, 1.0)),
        "cognitivity": draw(st.one_of(st.just(0.0), frac(0.0, 4.0))),
        "sociability": 0.0 if zero else draw(st.one_of(frac(0.0, 1.0), frac(0.0, 4.0))),
        "competitivity": draw(st.one_of(st.sampled_from([None, 0.0, 1.0]), frac(0.0, 2.0))),
        "updating": draw(st.sampled_from(["immediate", "deferred"])),
        "ftol": -np.inf,
        "xtol": draw(st.sampled_from([1e-8, 0.0, 10.0])),
        "seed": 0,
    }
    if draw(st.booleans()):
        o["constraints"] = "Shrink"
    wid = draw(st.sampled_from([0.05, 0.2, 1.0, 4.0]))
    at = draw(st.sampled_from([0.0, -3.0, 50.0]))
    bounds = [[at, at + wid * draw(st.sampled_from([1.0, 0.3]))] for _ in range(n)]
    base = draw(st.sampled_from(["hash", "hash", "quad", "rastr"]))
    obj = {"base": base, "c": [draw(st.integers(-20, 20)) / 16.0 + 0.01, 0.3], "w": [1.0, 0.1, 30.0]}
    c = {"method": "cpso", "bounds": bounds, "opts": o, "obj": obj}
    if draw(st.booleans()):
        c["x0"] = {"seed": draw(st.integers(0, 999)), "grid": 1000, "kind": "array", "at": draw(st.sampled_from([0.5, 0.2, 1.0])), "spread": draw(st.sampled_from([0.5, 0.1, 0.02]))}
        if draw(st.integers(0, 2)) == 0:
            c["x0"]["outlier"] = draw(st.integers(0, p - 1))
            c["x0"]["at"] = draw(st.sampled_from([0.2, 0.0, 0.3]))
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


ASSUMPTIONS = ["the collapse threshold and the number of restarted particles follow the published competitive PSO rule (reference [3] of the docstring)"]
RULE = "every particle's move explained by the velocity rule or, for exactly the expected victims, by a restart; non-trivial when restarts of some but not all-but-one particles happened"
SUBS = [Sub("restarts", cases, check, 5000, 60000, RULE)]
