"""P30: deferred generations depend on earlier generations only; immediate mode uses an improvement at once."""
import zlib

import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, require
from ..objectives import Obj
from ..trace import Grad, is_opt, run
from hypothesis import strategies as st


class Altered:
    """The objective up to call k; from then on other values."""

    def __init__(self, f, k, how):
        self.f, self.k, self.how, self.n = f, k, how, 0

    def __call__(self, x, *a):
        n, v = self.n, self.f(x, *a)
        self.n += 1
        if n < self.k:
            return v
        if self.how == "neg":
            return -float(v)
        if self.how == "drop":
            return float(v) - 1e3 * (1 + abs(float(v)))
        if self.how == "raise":
            return float(v) + 1e3 * (1 + abs(float(v)))
        if self.how == "flat":
            return 0.5
        return zlib.crc32((np.asarray(x, dtype=float) + 0.0).tobytes(), 99) / 2.0**32


def same(a, b):
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def check_prefix(case):
    m, o = case["method"], case["opts"]
    obj = Obj(case["obj"], case["bounds"])
    base = run(case, callback=None)
    total = len(base.X)
    k = min(total - 1, int(case["at"] * total))
    jac = Grad(obj) if case.get("jac") else None
    alt = run(case, callback=None, fun=Altered(obj, k, case["how"]), jac=jac)
    lab = [m, case["how"]]
    deferred = is_opt(case) and o.get("updating", "deferred") == "deferred"
    p = o["popsize"] if is_opt(case) else 1
    # number of leading calls whose points are decided before the value of call k is known
    g = k // p
    upto = (g + 1) * p if deferred or g == 0 else k + 1
    for name, t in (("unaltered", base), ("altered", alt)):
        require(len(t.X) >= upto, "%s: the %s run stopped after %d evaluations, before the end of the generation of call %d, although nothing was different before", m, name, len(t.X), k)
    d = [i for i in range(upto) if not same(base.X[i], alt.X[i])]
    if d:
        i = d[0]
        where = f"generation {g + 1}" if i > k else "an earlier call"
        require(False, "%s (%s): changing objective values from call %d on (%s) moved evaluation %d of %s: %s instead of %s", m, o.get("updating", "always deferred"), k, case["how"], i, where, alt.X[i].tolist(), base.X[i].tolist())
    n = min(len(base.X), len(alt.X))
    if upto < n and not same(base.X[upto:n], alt.X[upto:n]):
        lab.append("effect")
    if deferred and g > 0 and k % p < p - 1 and "effect" in lab:
        lab.append("nontrivial")
    lab.append("deferred" if deferred else "sequential")
    return lab


class At:
    """Values of a run in which call k does, or does not, improve on everything seen so far."""

    def __init__(self, f, k, best):
        self.f, self.k, self.best, self.F = f, k, best, []

    def __call__(self, x, *a):
        v = float(self.f(x, *a))
        if len(self.F) == self.k:
            v = min(self.F) - 1.0 if self.best else max(self.F) + 1.0
        self.F.append(v)
        return v


def check_immediate(case):
    m, o = case["method"], case["opts"]
    p, n = o["popsize"], len(case["bounds"])
    obj = Obj(case["obj"], case["bounds"])
    k = case["gen"] * p + int(case["at"] * (p - 1) * 0.999)  # never the last member of a generation
    A = run(case, callback=None, fun=At(obj, k, False))
    B = run(case, callback=None, fun=At(obj, k, True))
    end = (case["gen"] + 1) * p
    require(len(A.X) >= end and len(B.X) >= end, "%s: run stopped early", m)
    require(same(A.X[: k + 1], B.X[: k + 1]), "%s: a value changed points evaluated before it was returned", m)
    gB = B.X[k]
    j0 = int(np.argmin(A.F[:k]))
    gA = A.X[j0]
    if any(not same(A.X[j], gA) for j in range(k) if A.F[j] == A.F[j0]):
        return [m, "tie"]
    scale = np.maximum(np.abs(case["bounds"]).max(), np.abs(A.X[:end]).max(axis=0))
    gap = np.abs(gB - gA)
    lab = [m]
    if m == "de":
        s = o["strategy"]
        lab.append(s)
        i = k % p
        parent = None
        if s.startswith("rand"):
            # smallest population, full crossover: the replaced member is one of the donors
            j = k - p
            # parent of member i: the last accepted point of that slot
            slot = [c for c in range(i, k, p)]
            parent = A.X[slot[int(np.argmin(A.F[slot]))]]
            gap = np.abs(gB - parent)
        if (gap > 1e-6 * scale).all():
            require(not same(A.X[k + 1], B.X[k + 1]), "de (%s, immediate): call %d improved on the best by 1, but the next trial %s is the same as without the improvement", s, k, A.X[k + 1].tolist())
            lab.append("nontrivial")
        return lab
    c2 = o["sociability"]
    seen = 0
    fA, fB = A.F[j0], B.F[k]
    for j in range(k + 1, end):
        d = B.X[j] - A.X[j]
        r = c2 * (gB - gA)
        tol = 256 * np.spacing(scale) * (1 + c2) + 1e-12 * np.abs(r)
        require(bool(((d >= np.minimum(0, r) - tol) & (d <= np.maximum(0, r) + tol)).all()), "%s (immediate): after the best moved from %s to %s at call %d, the candidate of call %d moved by %s, outside [0, c2] times that", m, gA.tolist(), gB.tolist(), k, j, d.tolist())
        if (np.abs(gB - gA) > 1e-6 * scale).any():
            require(not same(A.X[j], B.X[j]), "%s (immediate): call %d improved on the best, but the candidate of call %d is the same as without the improvement", m, k, j)
            seen += 1
        if A.F[j] < fA:
            gA, fA = A.X[j], A.F[j]
        if B.F[j] < fB:
            gB, fB = B.X[j], B.F[j]
    if seen:
        lab.append("nontrivial")
    return lab


@st.composite
def prefix(draw):
    if draw(st.integers(0, 9)) == 0:
        c = draw(samp_st(maxiter=(2, 20)))
    else:
        c = draw(opt_st(maxiter=(3, 7), finite=True, tol="never", x0="any", huge=False, maxpop=12))
        if draw(st.integers(0, 7)) == 0:
            c["opts"]["popsize"] = draw(st.integers(13, 70))
    c["at"] = draw(st.sampled_from([k / 24 for k in range(8, 20)] + [0.0, 0.1, 0.2, 0.95, 1.0]))
    c["how"] = draw(st.sampled_from(["neg", "drop", "raise", "flat", "hash"]))
    return c


@st.composite
def immediate(draw):
    c = draw(opt_st(methods=("de", "pso", "cpso"), constraints="off", maxiter=(2, 5), finite=True, tol="never", huge=False, quant=False, rets=["float"], updating=("immediate",), maxpop=10, big=False))
    o = c["opts"]
    c["obj"] = {"base": draw(st.sampled_from(["hash", "rough", "quad"])), "c": [0.3], "w": [1.0, 0.1]}
    if c["method"] == "de":
        if o["strategy"].startswith("rand"):
            o["popsize"] = 4 if o["strategy"] == "rand1bin" else 6
            o["recombination"] = 1.0
            o["mutation"] = max(o["mutation"], 0.1)
    large = draw(st.integers(0, 3)) == 0
    if large and not o.get("strategy", "").startswith("rand"):
        o["popsize"] = draw(st.integers(11, 70))
    if c["method"] != "de":
        o["sociability"] = max(o["sociability"], 0.1)
    c["gen"] = draw(st.integers(1, o["maxiter"] - 1))
    c["at"] = draw(st.integers(0, 16).map(lambda k: k / 16))
    return c


SUBS = [
    Sub("prefix", prefix, check_prefix, 2500, 30000, "deferred generation altered before its last call, with a visible effect on later generations"),
    Sub("immediate", immediate, check_immediate, 2500, 30000, "a candidate after the improvement for which the old and the new best differ"),
]
