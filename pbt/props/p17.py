"""P17: only the ordering of objective values drives the optimizers; samplers see differences only."""
import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, require
from ..objectives import Obj
from ..trace import run, is_opt
from hypothesis import strategies as st

KINDS = ["rank", "heavy", "ulps", "huge", "negative", "tiny", "expo", "wide"]


def table(values, kind, seed):
    """A strictly increasing map of the given finite values."""
    v = np.unique(values)
    m = len(v)
    r = np.random.RandomState(seed)
    gaps = r.randint(1, 1000, m).astype(float)
    c = np.cumsum(gaps)
    if kind == "rank":
        y = np.arange(m, dtype=float)
    elif kind == "heavy":
        y = np.cumsum(np.exp(r.randint(-6, 12, m)))
    elif kind == "ulps":
        y = 1.0 + np.arange(m) * 2.0**-52
    elif kind == "huge":
        y = (c - c[m // 2]) * 1e290 / c[-1] * 1e10
    elif kind == "negative":
        y = -c[::-1]
    elif kind == "tiny":
        y = c * 1e-300
    elif kind == "expo":
        y = 2.0 ** np.linspace(-900, 900, m) if m < 2**40 else c
        y = np.maximum.accumulate(y)
    else:
        y = np.arange(m) * 1e6 - 5e5
    if (np.diff(y) <= 0).any():
        y = np.arange(m, dtype=float)
    return dict(zip(v.tolist(), y.tolist()))


class Mapped:
    def __init__(self, obj, tab):
        self.obj, self.tab, self.lost = obj, tab, 0

    def __call__(self, x):
        v = float(self.obj(x))
        if v in self.tab:
            return self.tab[v]
        if not np.isfinite(v):
            return v
        self.lost += 1
        return 1e305


def check(case):
    base = run(case["case"], callback=False)
    c = case["case"]
    obj = Obj(c["obj"], c["bounds"])
    fin = base.F[np.isfinite(base.F)]
    if not len(fin):
        return [c["method"], "noval"]
    g = Mapped(obj, table(fin, case["kind"], case["tseed"]))
    other = run(c, callback=False, fun=g)
    m = c["method"]
    k = min(len(base.X), len(other.X))
    diff = np.nonzero((base.X[:k] != other.X[:k]).any(axis=1))[0]
    p = c["opts"]["popsize"]
    require(not len(diff), "%s: evaluation %s differs when the objective is replaced by an increasing transformation of it (%s): %s instead of %s", m, diff[:1].tolist(), case["kind"], other.X[diff[:1]].tolist(), base.X[diff[:1]].tolist())
    lab = [m, case["kind"]]
    if m in ("cmaes", "vdcma"):
        if len(base.X) != len(other.X):
            early = base if len(base.X) < len(other.X) else other
            require(early.res.status in (-5, -7), "%s: stops with status %d after %d evaluations, but goes on for an increasing transformation of the objective", m, early.res.status, len(early.X))
            lab.append("value-stop")
        else:
            require(np.array_equal(base.res.x, other.res.x), "%s: another solution is returned for an increasing transformation of the objective", m)
    else:
        require(len(base.X) == len(other.X) and base.res.nit == other.res.nit, "%s: %d evaluations become %d", m, len(base.X), len(other.X))
        require(np.array_equal(base.res.x, other.res.x), "%s: another solution is returned for an increasing transformation of the objective", m)
    if k > 2 * p:
        lab.append("nontrivial")
    return lab


@st.composite
def cases(draw, long=False):
    c = draw(opt_st(tol="never", objs=None, maxiter=(30, 200) if long else (3, 25), big=not long, maxpop=6 if long else 14, rets=["float"], fixed=True))
    if c["method"] in ("cmaes", "vdcma"):
        c["opts"].pop("constraints", None)
        kind = draw(st.sampled_from(["rank", "heavy", "huge", "negative", "expo", "wide"]))
    else:
        kind = draw(st.sampled_from(KINDS))
    return {"case": c, "kind": kind, "tseed": draw(st.integers(0, 999))}


class Shifted:
    def __init__(self, obj, s):
        self.obj, self.s = obj, s

    def __call__(self, x):
        return float(self.obj(x)) + self.s


def check_shift(case):
    c = case["case"]
    obj = Obj(c["obj"], c["bounds"])
    a = run(c, callback=False, fun=Shifted(obj, 0.0), jac=jac_of(c, obj), return_all=True)
    b = run(c, callback=False, fun=Shifted(obj, case["shift"]), jac=jac_of(c, obj), return_all=True)
    k = min(len(a.X), len(b.X))
    require(len(a.X) == len(b.X) and np.array_equal(a.X[:k], b.X[:k]), "%s: trajectory changes when %r is added to the objective", c["method"], case["shift"])
    require(np.array_equal(a.res.xall, b.res.xall) and np.array_equal(a.res.x, b.res.x), "%s: samples change when %r is added to the objective", c["method"], case["shift"])
    lab = [c["method"]]
    acc = a.res.accept_ratio
    if 0 < acc and len(np.unique(a.res.xall, axis=0)) < len(a.res.xall):
        lab.append("nontrivial")
    return lab


def jac_of(c, obj):
    from ..trace import Grad

    return Grad(obj) if c.get("jac") else None


@st.composite
def shift_cases(draw):
    # values are multiples of 2^-10 and small, so that shifted values and their differences are exact
    b = draw(st.sampled_from(["quad", "lin", "rot", "rastr"]))
    obj = {"base": b, "c": [draw(st.integers(-16, 16)) / 16.0], "w": [draw(st.sampled_from([1.0, 0.5, 3.0]))]}
    obj["post"] = [["mul", draw(st.sampled_from([1.0, 10.0, 100.0]))]]
    c = draw(samp_st(objs=st.just(obj)))
    if c.get("jac"):
        c["obj"] = {"base": b, "c": obj["c"], "w": obj["w"], "post": obj["post"]}
    c["obj"]["post"] = c["obj"]["post"] + [["quant", 1024.0], ["cap", 2.0**20]]
    if "finite_diff_abs_step" in c["opts"]:
        c["opts"]["finite_diff_abs_step"] = 0.05
    return {"case": c, "shift": float(draw(st.sampled_from([1, -1, 1000, -(2**20), 2**30, 7])))}


SUBS = [
    Sub("increasing", cases, check, 2600, 30000, "same case under a generated strictly increasing table of values; non-trivial when more than two generations were compared"),
    Sub("long", lambda: cases(long=True), check, 200, 2500, "the same over 30 to 200 generations"),
    Sub("shift", shift_cases, check_shift, 1200, 12000, "same chain with a constant added (values exact); non-trivial when some but not all proposals were accepted"),
]
