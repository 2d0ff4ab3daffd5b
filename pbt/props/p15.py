"""P15: each PSO/CPSO move obeys the velocity rule towards personal and global best."""
import numpy as np

from ..cases import bounds_st, frac, own_seed
from ..core import Sub, require
from ..trace import METHODS_OPT, gens, run
from hypothesis import strategies as st


def explain(dx, V, x, pb, gb, w, c1, c2, tol):
    """Interval [lo, hi] per coordinate of admissible unshortened displacements (best attraction at one position gb)."""
    a, g = c1 * (pb - x), c2 * (gb - x)
    return w * V + np.minimum(0, a) + np.minimum(0, g) - tol, w * V + np.maximum(0, a) + np.maximum(0, g) + tol


def shortened(dx, lo, hi, tol):
    """Is there a factor beta = 1/s in (0, 1] with s * (dx +- tol) meeting [lo, hi] in every coordinate?"""
    slo, shi = 1.0, np.inf
    for d, a, b, e in zip(dx, lo, hi, tol):
        for c, r in ((d + e, a), (e - d, -b)):  # s * c >= r
            if c > 0:
                slo = max(slo, r / c)
            elif c < 0:
                shi = min(shi, r / c)
            elif r > 0:
                return False
    return slo <= shi * (1 + 1e-9)


def check(case):
    m, o, b = case["method"], case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n = o["popsize"], len(b)
    w, c1, c2 = o["inertia"], o["cognitivity"], o["sociability"]
    shrink = o.get("constraints") == "Shrink"
    deferred = o["updating"] == "deferred"
    t = run(case, callback=True)
    G, F = gens(t, case)
    X, V = G[0].copy(), np.zeros((p, n))
    pb, pf = G[0].copy(), F[0].copy()
    gi = int(np.argmin(pf))
    gb, gf = pb[gi].copy(), pf[gi]
    short = pulled = 0
    stat = [0.0, 0.0, 0.0]
    for k in range(1, len(G)):
        scale = np.maximum(np.abs(b).max(axis=1), np.abs(G[k - 1 : k + 1]).reshape(-1, n).max(axis=0))
        tol = 64 * np.spacing(scale) * (1 + w + c1 + c2) + 1e-12 * np.abs(V).max(initial=0)
        require(np.array_equal(t.cb[k]["X"], G[k]), "%s: reported population is not the one evaluated", m)
        newV = np.zeros_like(V)
        for i in range(p):
            dx = G[k, i] - X[i]
            # pso personal best: an equal value may or may not be adopted; equal values are excluded by construction
            lo, hi = explain(dx, V[i], X[i], pb[i], gb, w, c1, c2, tol)
            ok = bool(((dx >= lo) & (dx <= hi)).all())
            if not ok and shrink:
                touch = (np.abs(G[k, i] - b[:, 0]) <= tol) | (np.abs(G[k, i] - b[:, 1]) <= tol)
                ok = bool(touch.any()) and shortened(dx, lo, hi, tol)
                short += ok
            require(ok, "%s (%s): generation %d, particle %d moved by %s; velocity rule allows [%s, %s]", m, o["updating"], k + 1, i, dx.tolist(), lo.tolist(), hi.tolist())
            if (np.abs(gb - X[i]) > 1e3 * tol).any():
                pulled += 1
            if not shrink and c1 == 0 and c2 > 0:
                r = (dx - w * V[i])[np.abs(gb - X[i]) > 1e6 * tol] / (c2 * (gb - X[i])[np.abs(gb - X[i]) > 1e6 * tol])
                stat = [stat[0] + float((r - 0.5).sum()), stat[1] + len(r) / 12.0, stat[2] + len(r)]
            newV[i] = dx
            if not deferred:
                V[i] = dx
                f = F[k, i]
                if f <= pf[i]:
                    pb[i], pf[i] = G[k, i], f
                if f <= gf:
                    gb, gf = G[k, i].copy(), f
        if deferred:
            V = newV
            for i in range(p):
                if F[k, i] < pf[i]:
                    pb[i], pf[i] = G[k, i], F[k, i]
            gi = int(np.argmin(pf))
            if pf[gi] < gf:
                gb, gf = pb[gi].copy(), pf[gi]
        X = G[k].copy()
    lab = [m, o["updating"], "Shrink" if shrink else "free"]
    if short:
        lab.append("shortened")
    if pulled and len(G) > 2:
        lab.append("nontrivial")
    return {"labels": lab, "stats": {"attraction": stat} if stat[2] else {}}


def check_factors(case):
    """The random factors, over a swarm whose bests never change (every later value is worse)."""
    m, o, b = case["method"], case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n = o["popsize"], len(b)
    w, c1, c2 = o["inertia"], o["cognitivity"], o["sociability"]
    X = []

    def fun(x):
        X.append(np.array(x))
        return float(len(X))

    METHODS_OPT[m](fun, b, **o)
    E = np.array(X).reshape(-1, p, n)
    dx = np.diff(E, axis=0)
    V = np.concatenate([np.zeros((1, p, n)), dx[:-1]])
    A, B = c1 * (E[0] - E[:-1]), c2 * (E[0, 0] - E[:-1])
    v = (A**2 + B**2) / 12
    u = dx - w * V - 0.5 * (A + B)
    noise = 32 * np.spacing(np.maximum(np.abs(E[1:]), np.abs(E[:-1]))) * (1 + w + c1 + c2)
    seen = v > (1e6 * noise) ** 2
    require(bool((u[~seen] ** 2 <= 1e13 * noise[~seen] ** 2).all()), "%s: a particle is drawn away from the way to its best and the swarm's best", m)
    z = np.where(seen, u / np.sqrt(np.where(seen, v, 1.0)), 0.0)
    require(bool((z**2 <= 6 * (1 + 1e-9)).all()), "%s: an attraction exceeds its coefficient times the offset", m)
    mu4 = np.where(seen, ((A**4 + B**4) / 80 + A**2 * B**2 / 24) / np.where(seen, v, 1.0) ** 2, 0.0)
    stats = {}
    kinds = {"": seen, "own best alone: ": seen & (A**2 > 400 * B**2), "swarm's best alone: ": seen & (B**2 > 400 * A**2)}
    for kind, on in kinds.items():
        for name, at in (("first particle", [slice(None), slice(0, 1)]), ("second particle", [slice(None), slice(1, 2)]), ("last particle", [slice(None), slice(-1, None)]), ("others", [slice(None), slice(2, -1)]), ("last coordinate", [slice(None), slice(None), slice(-1, None)]), ("first move", [slice(0, 1)])):
            y, k, f = z[tuple(at)], on[tuple(at)], mu4[tuple(at)]
            if k.any():
                stats[kind + name] = [float(y[k].sum()), float(k.sum()), float(((y**2 - 1))[k].sum()), float((f - 1)[k].sum()), float(k.sum())]
        # the two factors of one move: no relation between them
        k = on & (np.abs(A * B) > 0)
        if not kind and k.any():
            s = (2 * A * B)[k] / (A**2 + B**2)[k]
            stats["own and swarm's best"] = [float((s * (z[k] ** 2 - 1)).sum()), float((s**2 * (mu4[k] - 1)).sum()), 0.0, 0.0, float(k.sum())]
        for name, a, c, k in (
            ("neighbouring coordinates", z[:, :, 1:], z[:, :, :-1], on[:, :, 1:] & on[:, :, :-1]),
            ("neighbouring particles", z[:, 1:], z[:, :-1], on[:, 1:] & on[:, :-1]),
            ("successive moves", z[1:], z[:-1], on[1:] & on[:-1]),
        ):
            if k.any():
                # relation of the factors, whichever way the attractions point
                s = np.sign(np.where(A**2 > B**2, A, B))
                if name == "neighbouring coordinates":
                    s = s[:, :, 1:] * s[:, :, :-1]
                elif name == "neighbouring particles":
                    s = s[:, 1:] * s[:, :-1]
                else:
                    s = s[1:] * s[:-1]
                stats[kind + name] = [float((a * c * s)[k].sum()), float(k.sum()), 0.0, 0.0, float(k.sum())]
    return {"labels": [m, o["updating"], "nontrivial"], "stats": stats}


@st.composite
def swarms(draw):
    m = draw(st.sampled_from(["pso", "pso", "cpso"]))
    c = st.sampled_from([0.0, 0.02, 0.5, 1.0, 1.49618, 2.0, 4.0])
    o = {
        "maxiter": draw(st.integers(3, 12)),
        "popsize": draw(st.one_of(st.integers(2, 16), st.integers(17, 60))),
        "inertia": draw(frac(0.0, 0.9)),
        "cognitivity": draw(c),
        "sociability": draw(c),
        "updating": draw(st.sampled_from(["immediate", "deferred"])),
        "ftol": -np.inf,
        "seed": 0,
    }
    if m == "cpso":
        o["competitivity"] = None
    c = {"method": m, "bounds": draw(bounds_st(draw(st.one_of(st.integers(1, 8), st.integers(9, 40))))), "opts": o}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


def finalize(pool, tier):
    for name, (a, k, d, e, m) in sorted((k, v) for k, v in pool.items() if k != "attraction"):
        if m < 500:
            continue
        for what, x, w in (("mean" if e else "correlation", a, k), ("spread", d, e)):
            y = x / np.sqrt(w) if w > 0 else 0.0
            if abs(y) > 8:
                yield name, f"random attraction factors, {name}: {what} off by {y:.1f} standard deviations over {m:.0f} moves"
    v = pool.get("attraction")
    if v and v[2] > 500:
        z = v[0] / np.sqrt(v[1])
        if abs(z) > 8:
            yield "attraction", f"random attraction factors average {0.5 + v[0] / v[2]:.4f} (z = {z:.1f})"


@st.composite
def cases(draw, long=False):
    m = draw(st.sampled_from(["pso", "pso", "cpso"]))
    n = draw(st.integers(1, 3 if long else 5))
    large = not long and draw(st.integers(0, 7)) == 0
    if large and draw(st.booleans()):
        n = draw(st.integers(6, 32))
    o = {
        "maxiter": draw(st.integers(60, 400) if long else st.integers(2, 4 if large else 8)),
        "popsize": draw(st.integers(10, 64) if large else st.integers(2, 4 if long else 9)),
        "inertia": draw(st.sampled_from([0.99, 0.95, 0.9, 0.7]) if long else frac(0.0, 1.0)),
        "cognitivity": draw(st.one_of(st.just(0.0), frac(0.0, 1.5 if long else 4.0))),
        "sociability": draw(st.one_of(st.just(0.0), frac(0.0, 1.5 if long else 4.0))),
        "updating": draw(st.sampled_from(["immediate", "deferred"])),
        "ftol": -np.inf,
        "seed": 0,
    }
    if m == "cpso":
        o["competitivity"] = draw(st.sampled_from([None, 0.0]))
    if draw(st.booleans()):
        o["constraints"] = "Shrink"
    # tie-free objectives (a hash of the point, or generic smooth ones)
    # (long runs of the smooth ones end among points of equal value)
    base = "hash" if long else draw(st.sampled_from(["hash", "hash", "quad", "rastr"]))
    obj = {"base": base, "c": [draw(st.integers(-20, 20)) / 16.0 + 0.01, 0.3], "w": [1.0, 0.1, 30.0]}
    c = {"method": m, "bounds": draw(bounds_st(n)), "opts": o, "obj": obj}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "every displacement of every particle inside the interval the velocity rule allows; non-trivial when some particle is away from the swarm's best and more than two generations ran"
SUBS = [
    Sub("moves", cases, check, 5000, 60000, RULE),
    Sub("long", lambda: cases(long=True), check, 160, 2500, "the same over 60 to 400 generations of small swarms"),
    Sub("factors", swarms, check_factors, 600, 8000, "the random factors of every move, pooled by particle, coordinate and time; all non-trivial"),
]
