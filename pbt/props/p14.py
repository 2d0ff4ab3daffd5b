"""P14: each DE generation follows the chosen strategy, crossover and greedy selection."""
import functools
import itertools

import numpy as np

from ..cases import STRATS, bounds_st, frac, own_seed
from ..core import Sub, require
from ..trace import METHODS_OPT, gens, run
from hypothesis import strategies as st


@functools.lru_cache(maxsize=16)
def perms(m, k):
    return np.array(list(itertools.permutations(range(m), k)))


def combos(strategy, X, F, bests):
    """All combinations the strategy may form from the rows of X (the other members) and a best member."""
    m = len(X)
    if strategy == "rand1bin":
        idx = perms(m, 3)
        return X[idx[:, 0]] + F * (X[idx[:, 1]] - X[idx[:, 2]])
    if strategy == "best1bin":
        idx = perms(m, 2)
        return np.vstack([g + F * (X[idx[:, 0]] - X[idx[:, 1]]) for g in bests])
    sums = []
    k = 5 if strategy == "rand2bin" else 4
    for sub in itertools.permutations(range(m), k - 4):
        rest = [i for i in range(m) if i not in sub]
        for four in itertools.combinations(rest, 4):
            for a, b in itertools.combinations(four, 2):
                c, d = [i for i in four if i not in (a, b)]
                sums.append((*sub, a, b, c, d))
    idx = np.array(sums)
    if strategy == "rand2bin":
        return X[idx[:, 0]] + F * (X[idx[:, 1]] + X[idx[:, 2]] - X[idx[:, 3]] - X[idx[:, 4]])
    D = F * (X[idx[:, 0]] + X[idx[:, 1]] - X[idx[:, 2]] - X[idx[:, 3]])
    return np.vstack([g + D for g in bests])


def uniform(acc, j, m):
    """Add one draw j of range(m) to the sums for the mean and the spread of its relative place, and of its being at either end."""
    u = (j + 0.5) / m - 0.5
    k = (np.arange(m) + 0.5) / m - 0.5
    q = k**2
    acc[0] += u
    acc[1] += q.mean()
    acc[2] += 1
    acc[3] += u * u - q.mean()
    acc[4] += (q**2).mean() - q.mean() ** 2


def check(case):
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n = o["popsize"], len(b)
    F, CR, strat, cons = o["mutation"], o["recombination"], o["strategy"], o.get("constraints")
    lower, upper = b.T
    t = run(case, callback=True)
    G, GF = gens(t, case)
    pop, val = G[0].copy(), GF[0].copy()
    bestsF = val.min()
    bests = pop[val == bestsF]
    scale = np.maximum(np.abs(b).max(axis=1), np.abs(t.X).max(axis=0))
    tol = 32 * np.spacing(scale) * (1 + F)
    taken = [0.0, 0.0, 0.0]
    forced = [0.0] * 5
    donors = {}
    drawn = {}
    eq, resampled, moved = 0, 0, 0
    deferred = o["updating"] == "deferred"
    shown = t.cb[0]["X"]
    require(np.array_equal(shown, pop), "de: reported population is not the initial one")
    for k in range(1, len(G)):
        cur, curv, cb, cbest = pop.copy(), val.copy(), bestsF, bests
        for i in range(p):
            base = cur if deferred else pop
            B = cbest if deferred else bests
            others = np.delete(base, i, axis=0)
            trial, parent = G[k, i], (cur[i] if deferred else pop[i])
            V = combos(strat, others, F, B)
            isV = np.abs(trial - V) <= tol
            isP = trial == parent
            if cons == "Random":
                out = (V < lower + tol) | (V > upper - tol)
                res = out & (trial >= lower) & (trial <= upper)
                sure_out = (V < lower - tol) | (V > upper + tol)
                isV = (isV & ~sure_out) | res
            good = (isV | isP).all(axis=1)
            if CR == 1:
                good &= isV.all(axis=1)
            elif CR == 0:
                good &= (~isP).sum() <= 1
            good &= isV.any(axis=1)
            require(good.any(), "de %s: trial %s (generation %d, member %d, parent %s) is not a crossover of its parent with any admissible combination (F=%r, CR=%r)", strat, trial.tolist(), k, i, parent.tolist(), F, CR)
            nt = int((~isP).sum())
            if k < 20 and 0 < CR < 1 and n > 1 and F > 0 and cons is None:
                # coordinates taken: one for certain, the others with probability CR
                # (a member equal to its parent everywhere has a degenerate combination)
                if len(np.unique(others, axis=0)) == p - 1 and nt > 0 and (np.ptp(base, axis=0) > 0).all():
                    taken[0] += nt - (1 + (n - 1) * CR)
                    taken[1] += (n - 1) * CR * (1 - CR)
                    taken[2] += 1
            if k < 20 and CR == 0 and n > 1 and nt == 1 and F > 0 and cons is None:
                uniform(forced, int(np.argmax(~isP)), n)
            if k < 20 and cons is None and F > 0 and strat in ("rand1bin", "best1bin") and len(B) == 1 and good.sum() == 1 and p > 3:
                row = perms(p - 1, 3 if strat == "rand1bin" else 2)[int(np.argmax(good))]
                drawn[k, i] = row
                # the donors of one trial relative to each other: distinct, any distance as likely
                for role, d in zip(("plus", "base"), (row[-2] - row[-1], row[0] - row[-2])):
                    if role == "plus" or len(row) == 3:
                        uniform(donors.setdefault(f"donor {role} from the one before", [0.0] * 5), int(d) % (p - 1) - 1, p - 2)
                # and to those drawn for the member before and in the generation before
                for before, was in (("member", drawn.get((k, i - 1))), ("generation", drawn.get((k - 1, i)))):
                    if was is not None:
                        for role, j, was_j in zip(("minus", "plus", "base"), row[::-1], was[::-1]):
                            uniform(donors.setdefault(f"donor {role} from that of the {before} before", [0.0] * 5), int(j - was_j) % (p - 1), p - 1)
                            hit = float(j == was_j) - 1 / (p - 1)
                            same = donors.setdefault(f"donor {role} as for the {before} before", [0.0] * 5)
                            same[0] += hit
                            same[1] += (1 - 1 / (p - 1)) / (p - 1)
                            same[2] += 1
                            if before == "member":
                                a, c = int(j) + (int(j) >= i), int(was_j) + (int(was_j) >= i - 1)
                                same = donors.setdefault(f"donor {role} at the same distance as for the member before", [0.0] * 5)
                                same[0] += float((a - i) % p == (c - i + 1) % p) - 1 / (p - 1)
                                same[1] += (1 - 1 / (p - 1)) / (p - 1)
                                same[2] += 1
                for role, j in zip(("minus", "plus", "base"), row[::-1]):
                    uniform(donors.setdefault("donor " + role, [0.0] * 5), int(j), p - 1)
                    # the same, counted from the member that is being replaced
                    at = int(j) + (int(j) >= i)
                    uniform(donors.setdefault("donor " + role + " from its place", [0.0] * 5), (at - i) % p - 1, p - 1)
            if cons == "Random" and not (np.abs(trial - V) <= tol).any(axis=0).all():
                resampled += 1
            # greedy selection
            f = GF[k, i]
            if deferred:
                if f < curv[i]:
                    pop[i], val[i] = trial, f
                    moved += 1
                elif f == curv[i]:
                    eq += 1
                    nxt = t.cb[k]["X"][i]
                    if np.array_equal(nxt, trial):
                        pop[i] = trial
            else:
                if f < val[i]:
                    pop[i], val[i] = trial, f
                    moved += 1
                elif f == val[i]:
                    eq += 1
                    nxt = t.cb[k]["X"][i]
                    if np.array_equal(nxt, trial):
                        pop[i] = trial
                if f < bestsF:
                    bestsF, bests = f, trial[None].copy()
                elif f == bestsF:
                    bests = np.vstack([bests, trial])
        shown = t.cb[k]["X"]
        for i in range(p):
            require(np.array_equal(shown[i], pop[i]), "de: after generation %d member %d is %s (value of trial %r, of parent %r)", k + 1, i, shown[i].tolist(), float(GF[k, i]), float(curv[i]))
        if deferred:
            mn = val.min()
            if mn < bestsF:
                bestsF, bests = mn, pop[val == mn]
            else:
                bests = np.vstack([bests, pop[val == bestsF]])
    lab = [strat, o["updating"], f"cons={cons}"]
    if moved and len(G) > 2:
        lab.append("nontrivial")
    if resampled:
        lab.append("resampled")
    if eq:
        lab.append("ties")
    stats = {**donors}
    if taken[2]:
        stats["taken"] = taken
    if forced[2]:
        stats["forced coordinate"] = forced
    return {"labels": lab, "stats": stats}


def check_crossover(case):
    """Which coordinates are taken, over a population that never changes (every later value is worse)."""
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    p, n, CR = o["popsize"], len(b), o["recombination"]
    X = []

    def fun(x):
        X.append(np.array(x))
        return float(len(X))

    METHODS_OPT["de"](fun, b, **o)
    E = np.array(X).reshape(-1, p, n)
    T = E[1:] != E[0]
    k = T.sum(axis=2)
    require(bool((k > 0).all()), "de: a trial takes nothing from its combination (CR=%r, %d dimensions)", CR, n)
    require(CR > 0 or bool((k == 1).all()), "de: a trial takes %d coordinates at recombination 0", int(k.max()))
    q = 1 / n + (1 - 1 / n) * CR
    stats = {}
    kind = "forced coordinate alone, %s: " % o["updating"] if CR == 0 else "crossover: "
    m = T.shape[0] * p
    for name, at in (("first", 0), ("second", 1), ("middle", n // 2), ("last", n - 1), ("member's own", None)):
        if name == "member's own":
            hits = T[:, np.arange(p), np.arange(p) % n].sum()
        else:
            hits = T[:, :, at].sum()
        stats[kind + name] = [float(hits - m * q), m * q * (1 - q), float(m), 0.0, 0.0]
    for name, half in (("first half", slice(0, p // 2)), ("second half", slice(p // 2, p))):
        w = (np.arange(n) + 0.5) / n - 0.5
        a = (T[:, half] * w).sum(axis=2)  # one forced coordinate, the others independent
        var = CR * (1 - CR) * (w**2).sum() + (w**2).mean() * (1 - CR) ** 2
        stats[kind + "places in the " + name] = [float(a.sum()), var * a.size, float(a.size), 0.0, 0.0]
    if 0 < CR < 1:
        # independence: the number taken per trial is 1 + a binomial, and trials are unrelated
        v = (n - 1) * CR * (1 - CR)
        d = (k - 1 - (n - 1) * CR) ** 2 - v
        mu4 = v * (1 + 3 * (n - 3) * CR * (1 - CR))
        stats["crossover: spread of the number taken"] = [float(d.sum()), (mu4 - v * v) * d.size, float(d.size), 0.0, 0.0]
        Z = T - q
        w = n * (q * (1 - q)) ** 2 + n * (n - 1) * ((1 - CR) / n) ** 4
        for name, a in (("next member", Z[:, 1:] * Z[:, :-1]), ("next generation", Z[1:] * Z[:-1])):
            if a.size:
                stats["crossover: relation to the " + name] = [float(a.sum()), w * a.size / n, float(a.size), 0.0, 0.0]
    elif CR == 0:
        at = T.argmax(axis=2)
        for name, a in (("next member", at[:, 1:] == at[:, :-1]), ("next generation", at[1:] == at[:-1])):
            if a.size:
                stats["forced coordinate: same for the " + name] = [float(a.sum() - a.size / n), a.size * (1 - 1 / n) / n, float(a.size), 0.0, 0.0]
    return {"labels": [o["updating"], "nontrivial"], "stats": stats}


@st.composite
def crossovers(draw):
    s = draw(st.sampled_from(sorted(STRATS)))
    n = draw(st.integers(2, 32))
    b = draw(bounds_st(n))
    o = {
        "maxiter": draw(st.integers(3, 12)),
        "popsize": draw(st.integers(STRATS[s], 40)),
        "strategy": s,
        "mutation": draw(frac(0.1, 2.0)),
        "recombination": draw(st.one_of(st.just(0.0), frac(0.0, 0.95))),
        "updating": draw(st.sampled_from(["immediate", "deferred"])),
        "ftol": -np.inf,
        "seed": 0,
    }
    c = {"method": "de", "bounds": b, "opts": o}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


def finalize(pool, tier):
    for name, v in sorted(pool.items()):
        if name == "taken" or v[2] < 500:
            continue
        for what, a, w in (("mean", v[0], v[1]), ("spread", v[3], v[4])):
            z = a / np.sqrt(w) if w > 0 else 0.0
            if abs(z) > 8:
                yield name, f"{name}: not uniform over its {v[2]:.0f} draws ({what} off by {z:.1f} standard deviations)"
    v = pool.get("taken")
    if v and v[2] > 500:
        # F*(difference) may vanish in a coordinate with tiny probability only: two-sided test
        z = v[0] / np.sqrt(v[1])
        if abs(z) > 8:
            yield "taken", f"the number of coordinates taken from the combination is {z:.1f} standard deviations off 1 + (n - 1) * CR over {v[2]:.0f} trials"


@st.composite
def cases(draw, ties=False, large=False, long=False, edge=False):
    s = draw(st.sampled_from(["best1bin", "rand1bin"] if large else sorted(STRATS)))
    n = draw(st.integers(1, 6))
    if draw(st.integers(0, 7)) == 0:
        n = draw(st.integers(7, 24))
    lo = STRATS[s]
    p = draw(st.integers(lo, {"rand1bin": 8, "best1bin": 10, "best2bin": 7, "rand2bin": 7}[s]))
    if large:
        p = draw(st.integers(11, 40 if s == "rand1bin" else 120))
    elif long:
        n, p = min(n, 3), draw(st.integers(lo, lo + 2))
    b = draw(bounds_st(n))
    o = {
        "maxiter": draw(st.integers(30, 60 if s == "rand2bin" else 200) if long else st.integers(2, 2 if large and p > 25 else 6)),
        "popsize": p,
        "strategy": s,
        "mutation": draw(frac(0.0, 2.0)),
        "recombination": draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.9]), frac(0.0, 1.0))),
        "updating": draw(st.sampled_from(["immediate", "deferred"])),
        "ftol": -np.inf,
        "seed": 0,
    }
    if edge or draw(st.booleans()):
        o["constraints"] = "Random"
    base = draw(st.sampled_from(["hash", "hash", "quad", "lin", "l1", "rastr"]))
    obj = {"base": base, "c": [draw(st.integers(-20, 20)) / 16.0]}
    if ties:
        obj["post"] = [["quant", draw(st.sampled_from([1.0, 4.0]))]]
    c = {"method": "de", "bounds": b, "opts": o, "obj": obj}
    if edge:
        c["x0"] = {"seed": draw(st.integers(0, 999)), "grid": draw(st.sampled_from([1, 2, 3])), "kind": "array"}
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


RULE = "every trial of every generation explained by exhaustive enumeration of donor tuples; non-trivial when some trial replaced its parent and more than two generations ran"
SUBS = [
    Sub("generations", cases, check, 2200, 30000, RULE),
    Sub("large", lambda: cases(large=True), check, 80, 1200, "the same for populations of 11 to 120 members"),
    Sub("long", lambda: cases(long=True), check, 48, 800, "the same for small populations over 30 to 200 generations"),
    Sub("edge", lambda: cases(edge=True), check, 300, 4000, "the same with bound handling, from a population on a coarse grid that includes the bounds"),
    Sub("ties", lambda: cases(ties=True), check, 500, 6000, RULE),
    Sub("crossover", crossovers, check_crossover, 500, 8000, "which coordinates are taken, pooled by their place; all non-trivial"),
]
