"""P31: every admissible configuration runs to completion, at finite points, with all documented fields."""
import math

import numpy as np

from ..cases import obj_st, opt_st, samp_st
from ..core import Runaway, Sub, Violation, require
from ..env import stochopy
from ..objectives import Obj
from ..trace import METHODS_OPT, METHODS_SAMP, Grad, budget, is_opt, make_step, make_x0
from hypothesis import strategies as st

RET = {
    "f32": lambda v: np.float32(v),
    "bool": lambda v: bool(v > 0.25),
    "npbool": lambda v: np.bool_(v > 0.25),
    "i8": lambda v: np.int8(max(-100, min(100, round(v)))),
    "u8": lambda v: np.uint8(max(0, min(200, round(v)))),
    "i32": lambda v: np.int32(max(-10**6, min(10**6, round(v)))),
    "0dint": lambda v: np.array(int(max(-10**6, min(10**6, round(v))))),
    "zero": lambda v: 0,
    "neg0": lambda v: -0.0,
    "tiny": lambda v: v * 1e-300,
    "huge": lambda v: v * 1e250,
    "bigint": lambda v: int(max(-1e6, min(1e6, round(v)))) * 10**15,
}


class Watch:
    def __init__(self, case):
        self.f = Obj(case["obj"], case["bounds"])
        self.n, self.calls, self.limit = len(case["bounds"]), 0, budget(case)
        self.cast = RET.get(case.get("cast"))
        self.args = None
        self.values = set()

    def point(self, x, who):
        require(isinstance(x, np.ndarray) and x.shape == (self.n,), "%s called with %s of shape %s instead of a 1-D array of %d", who, type(x).__name__, np.shape(x), self.n)
        require(x.dtype.kind == "f", "%s called with an array of dtype %s", who, x.dtype)
        require(bool(np.isfinite(x).all()), "%s evaluated at a non-finite point %s", who, x.tolist())

    def __call__(self, x, *a):
        self.calls += 1
        if self.calls > self.limit:
            raise Runaway(f"more than {self.limit} objective calls")
        self.point(x, "objective")
        self.args = a
        v = self.f(x)
        if self.cast:
            v = self.cast(float(v))
        if len(self.values) < 3:
            self.values.add(float(v))
        return v


def form(b, kind):
    if kind == "array":
        return np.array(b, dtype=float)
    if kind == "tuple":
        return tuple(tuple(r) for r in b)
    if kind == "F":
        return np.asfortranarray(np.array(b, dtype=float))
    if kind == "rows":
        return [np.array(r, dtype=float) for r in b]
    if kind == "intarray" and all(float(v).is_integer() for r in b for v in r):
        return np.array(b).astype(int)
    return b


def npify(o):
    out = {}
    for k, v in o.items():
        if isinstance(v, bool) or v is None or isinstance(v, str):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v if k == "seed" else np.int64(v)
        elif isinstance(v, float):
            out[k] = np.float64(v)
        else:
            out[k] = v
    return out


def check(case):
    m, o = case["method"], dict(case["opts"])
    n = len(case["bounds"])
    w = Watch(case)
    args = tuple(case.get("args", ()))
    ncb = [0]

    def cb(X, s):
        ncb[0] += 1

    extra = dict(case.get("extra", {}))
    kw = npify({**o, **extra}) if case["np"] else {**o, **extra}
    b = form(case["bounds"], case["form"])
    x0 = make_x0(case)
    if not is_opt(case):
        kw["stepsize"] = make_step(case)
        if m == "hmc" and case.get("jac"):
            g = Grad(w.f)

            def jac(x, *a):
                w.point(x, "jac")
                require(a == args, "jac called with args %s", a)
                r = g(x)
                return r

            kw["jac"] = jac
    call = cb if case["cb"] else None
    try:
        if case["front"]:
            f = stochopy.optimize.minimize if is_opt(case) else stochopy.sample.sample
            res = f(w, b, x0=x0, args=args, method=m, options=kw, callback=call)
        else:
            f = (METHODS_OPT if is_opt(case) else METHODS_SAMP)[m]
            res = f(w, b, x0=x0, args=args, callback=call, **kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{m} raised {type(e).__name__}: {e} on an admissible configuration") from e
    require(w.args == args, "%s: objective called with args %s instead of %s", m, w.args, args)
    cls = stochopy.optimize.OptimizeResult if is_opt(case) else stochopy.sample.SampleResult
    require(isinstance(res, cls), "%s returns %s", m, type(res).__name__)
    fields = ["x", "fun", "nit"] + (["nfev", "success", "status", "message"] if is_opt(case) else ["xall", "funall", "accept_ratio"])
    if extra.get("return_all"):
        fields += ["xall", "funall"]
    for k in fields:
        require(k in res, "%s: field %s missing from the result (%s)", m, k, sorted(res))
    x = np.asarray(res.x)
    require(x.shape == (n,) and x.dtype.kind == "f" and bool(np.isfinite(x).all()), "%s: solution %s for %d variables", m, x.tolist(), n)
    require(np.ndim(res.fun) == 0, "%s: fun is not a scalar", m)
    require(not np.isnan(float(res.fun)), "%s: fun is nan", m)
    mi = o["maxiter"]
    require(1 <= int(res.nit) <= mi, "%s: nit=%s for maxiter=%d", m, res.nit, mi)
    if is_opt(case):
        p = o["popsize"]
        require(isinstance(res.message, str) and len(res.message) > 0, "%s: message %r", m, res.message)
        require(int(res.status) == res.status and -8 <= res.status <= 1, "%s: status %r", m, res.status)
        require(bool(res.success) == (res.status >= 0), "%s: success %r with status %r", m, res.success, res.status)
        if extra.get("return_all"):
            rows = max(1, int(np.ceil(extra.get("verbosity", 1.0) * p)))
            require(np.shape(res.xall) == (res.nit, rows, n), "%s: xall has shape %s, expected %s", m, np.shape(res.xall), (res.nit, rows, n))
            require(np.shape(res.funall) == (res.nit, rows), "%s: funall has shape %s, expected %s", m, np.shape(res.funall), (res.nit, rows))
            require(bool(np.isfinite(res.xall).all()), "%s: xall has non-finite entries", m)
    else:
        require(int(res.nit) == mi, "%s: nit=%s for maxiter=%d", m, res.nit, mi)
        rows = mi
        require(np.shape(res.xall) == (rows, n) and np.shape(res.funall) == (rows,), "%s: xall %s, funall %s for maxiter=%d", m, np.shape(res.xall), np.shape(res.funall), mi)
        require(bool(np.isfinite(res.xall).all()), "%s: xall has non-finite entries", m)
        require(0 <= res.accept_ratio <= 1, "%s: accept_ratio %r", m, res.accept_ratio)
    if case["cb"]:
        require(ncb[0] >= 1, "%s: callback never called", m)
    repr(res)
    lab = [m, "dim1" if n == 1 else "dim>1"]
    if len(w.values) == 1:
        lab.append("constant")
    if case.get("cast"):
        lab.append("cast:" + case["cast"])
    if mi == 1:
        lab.append("maxiter=1")
    if is_opt(case):
        if o["popsize"] <= 4:
            lab.append("small-population")
        lab.append("status=%d" % res.status)
    if mi >= 30:
        lab.append("long")
    lab.append("nontrivial")
    return lab


@st.composite
def cases(draw, which="any", **kw):
    if which == "samplers" or (which == "any" and draw(st.integers(0, 3)) == 0):
        # leapfrog trajectories on faster growing targets may overflow whatever the implementation
        objs = obj_st(bases=["quad", "quad", "lin", "const", "rastr"], edge=True, rets=["float", "np", "0d"], quant=False)
        c = draw(samp_st(maxiter=(1, 40), maxdim=7, objs=objs, fixed=True))
        if draw(st.booleans()):
            c["opts"]["maxiter"] = 1
        if c["method"] == "mcmc" or not c.get("jac"):
            if draw(st.booleans()):
                c["cast"] = draw(st.sampled_from([k for k in RET if k not in ("huge", "bigint", "bool", "npbool", "u8", "i8", "i32", "0dint") or c["method"] == "mcmc"]))
        c["extra"] = {}
    else:
        k = dict(maxiter=(1, 12), maxdim=8, edge=True, fixed=True)
        k.update(kw)
        c = draw(opt_st(**k))
        o = c["opts"]
        e = {}
        if draw(st.booleans()):
            e["return_all"] = True
            e["verbosity"] = draw(st.sampled_from([0.0, 1.0, 0.5, 1, 0, 0.01, 0.99]))
        if draw(st.booleans()):
            e["workers"] = draw(st.sampled_from([0, 1]))
            e["backend"] = draw(st.sampled_from([None, "threading", "loky", "mpi"]))
        c["extra"] = e
        if "maxiter" not in kw and draw(st.integers(0, 5)) == 0:
            o["maxiter"] = 1
        if draw(st.integers(0, 4)) == 0:
            o["popsize"] = {"rand1bin": 4, "rand2bin": 6, "best1bin": 3, "best2bin": 5}.get(o.get("strategy"), 2)
            if c["method"] in ("cmaes", "vdcma", "na") and draw(st.booleans()):
                o["popsize"] = 1 if c["method"] == "cmaes" else 2
        if c["method"] == "na" and draw(st.booleans()):
            o["nrperc"] = draw(st.sampled_from([1, 0.01, 1.0]))
        if c["method"] in ("cmaes", "vdcma") and draw(st.integers(0, 3)) == 0:
            o["muperc"] = draw(st.sampled_from([1, 1.0, 0.01]))
        if "cast" not in c and draw(st.integers(0, 2)) == 0 and not any(op[0].startswith("inf") or (op[0] == "mul" and abs(op[1]) > 1e15) for op in c["obj"].get("post", [])):
            c["cast"] = draw(st.sampled_from([k for k in RET if k != "huge" or o.get("constraints") != "Penalize"]))
            c["obj"].pop("ret", None)
    c["form"] = draw(st.sampled_from(["list", "array", "tuple", "F", "rows", "intarray"]))
    c["np"] = draw(st.integers(0, 3)) == 0
    c["cb"] = draw(st.booleans())
    c["front"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        c["args"] = draw(st.lists(st.sampled_from([1, 2.5, "text", None]), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        c["opts"]["seed"] = draw(st.sampled_from([0, 2**32 - 1, 1]))
    return c


@st.composite
def sizes(draw):
    """Every population size, budget and fraction up to a few hundred, whatever they round to."""
    c = draw(cases("opt", maxiter=(2, 3), maxdim=3, big=False))
    o = c["opts"]
    k = draw(st.integers(0, 2))
    if k == 0:
        o["maxiter"] = draw(st.integers(2, 300))
        o["ftol"] = -math.inf
        if c["method"] in ("pso", "cpso") and "constraints" not in o:
            o["maxiter"] = min(o["maxiter"], 60)
        if c["method"] == "na":
            o["maxiter"] = min(o["maxiter"], 80)
    else:
        o["popsize"] = draw(st.integers(6, 60) if k == 1 else st.integers(6, 260))
    for f in ("nrperc", "muperc"):
        if f in o:
            o[f] = draw(st.integers(1, 100)) / 100
    if "return_all" in c["extra"]:
        c["extra"]["verbosity"] = draw(st.integers(0, 100)) / 100
    return c


ASSUMPTIONS = [
    "swarm coefficients at the unstable end of their range grow displacements geometrically: runs of up to 60 iterations are explored, where this cannot overflow",
    "HMC is driven on targets with at most linearly growing gradients: a leapfrog trajectory on faster growing ones may overflow whatever the implementation",
]
SUBS = [
    Sub("any", lambda: cases(), check, 8000, 100000, "every admissible case counts", shards=8),
    Sub("sizes", sizes, check, 1600, 20000, "every admissible case counts"),
    Sub("long", lambda: cases("opt", maxiter=(30, 60), maxpop=10), check, 900, 10000, "every admissible case counts"),
    Sub("evolution-long", lambda: cases("opt", methods=("cmaes", "vdcma"), maxiter=(100, 500), maxpop=8, tol="never"), check, 240, 4000, "every admissible case counts"),
]
