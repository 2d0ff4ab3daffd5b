"""Execute a case against the real library while recording every objective call and callback."""
import copy

import numpy as np

from .core import Runaway, Violation
from .env import stochopy
from .objectives import Obj

POP = ("de", "pso", "cpso", "na")


def make_x0(case):
    spec = case.get("x0")
    if spec is None:
        return None
    b = np.asarray(case["bounds"], dtype=float)
    n = len(b)
    shape = (case["opts"]["popsize"], n) if case["method"] in POP else (n,)
    u = np.random.RandomState(spec["seed"]).rand(*shape)
    g = spec["grid"]
    u = np.round(u * g) / g
    if "spread" in spec:  # a cluster: "at" and "spread" in units of the box
        u = spec["at"] + spec["spread"] * (u - 0.5)
    if "outlier" in spec and u.ndim == 2:  # one member away from the cluster
        u[spec["outlier"] % len(u)] = 1.0 - spec["at"]
    x = b[:, 0] + u * (b[:, 1] - b[:, 0])
    if not spec.get("out"):
        x = np.clip(x, b[:, 0], b[:, 1])
    kind = spec["kind"]
    if kind == "int":
        lo, hi = np.ceil(b[:, 0]), np.floor(b[:, 1])
        if (lo <= hi).all():
            return np.clip(np.round(x), lo, hi).astype(int)
        return x
    if kind == "list":
        return x.tolist()
    if kind == "tuple":
        return tuple(map(tuple, x.tolist())) if x.ndim == 2 else tuple(x.tolist())
    if kind == "F":
        return np.asfortranarray(x)
    if kind == "strided":
        big = np.repeat(x, 2, axis=0)
        return big[::2]
    return x


def make_step(case):
    s = case["step"]
    if s["kind"] == "array":
        return np.array(s["v"], dtype=float)
    if s["kind"] == "tuple":
        return tuple(s["v"])
    return copy.deepcopy(s["v"])


class Grad:
    """Analytic-like gradient used as jac: central differences of the spec at a tiny step, or exact for simple bases."""

    def __init__(self, obj):
        self.obj = obj

    def __call__(self, x, *args):
        o = self.obj
        s = o.spec
        u = (np.asarray(x, dtype=float) - o.m) / o.h
        d = u - o.c
        if s["base"] == "quad":
            g = 2.0 * o.w * d
        elif s["base"] == "lin":
            g = o.w + 0.0 * d
        elif s["base"] == "rot":
            g = 2.0 * np.dot(o.w, d) * o.w + 0.02 * d
        elif s["base"] == "const":
            g = 0.0 * d
        elif s["base"] == "rastr":
            z = 5.0 * d
            g = 5.0 * (2.0 * z + 20.0 * np.pi * np.sin(2.0 * np.pi * z))
        else:
            raise KeyError(s["base"])
        for op, arg in s.get("post", []):
            if op == "mul":
                g = g * arg
        return g / o.h


class Recorder:
    def __init__(self, fun, limit):
        self.fun, self.limit = fun, limit
        self.X, self.F, self.args, self.kind = [], [], [], []

    def __call__(self, x, *args):
        if len(self.X) >= self.limit:
            raise Runaway(f"more than {self.limit} objective calls")
        v = self.fun(x, *args)
        self.X.append(np.array(x, dtype=float))
        self.F.append(float(v))
        self.args.append(args)
        self.kind.append("f")
        return v


class Trace:
    pass


METHODS_OPT = {m: getattr(stochopy.optimize, m) for m in ("de", "pso", "cpso", "na", "cmaes", "vdcma")}
METHODS_SAMP = {m: getattr(stochopy.sample, m) for m in ("mcmc", "hmc")}


def is_opt(case):
    return case["method"] in METHODS_OPT


def budget(case):
    n = len(case["bounds"])
    o = case["opts"]
    mi = o.get("maxiter", 100)
    if is_opt(case):
        return (mi + 3) * o.get("popsize", 10) + 50
    if case["method"] == "mcmc":
        return 3 * mi + 50
    return (2 * n * (o.get("nleap", 10) + 4) + 4) * mi + 50


def snapshot(X, state):
    return {"X": np.array(X, dtype=float, copy=True), "state": {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in state.items()}}


def run(case, callback=True, fun=None, crash_ok=False, front="direct", jac=None, record=True, **over):
    """Run the case; returns a Trace with res, X (points), F (values), cb (snapshots). A crash is a Violation."""
    t = Trace()
    obj = Obj(case["obj"], case["bounds"]) if fun is None else fun
    rec = Recorder(obj, budget(case)) if record else obj
    opts = dict(case["opts"])
    opts.update(over)
    args = tuple(opts.pop("args", ()))
    cb_list = []

    def cb(X, state):
        s = snapshot(X, state)
        s["calls"] = len(rec.X) if record else None
        cb_list.append(s)

    if callback is True:
        user_cb = cb
    elif callback:
        user_cb = callback
    else:
        user_cb = None
    x0 = make_x0(case)
    if case["method"] in METHODS_SAMP:
        if "stepsize" not in opts and "step" in case:
            opts["stepsize"] = make_step(case)
        if case["method"] == "hmc":
            if jac is not None:
                opts["jac"] = jac
            elif case.get("jac"):
                opts["jac"] = Grad(obj)
    t.rec, t.cb, t.x0 = rec, cb_list, x0
    try:
        if front == "direct":
            f = (METHODS_OPT if is_opt(case) else METHODS_SAMP)[case["method"]]
            t.res = f(rec, case["bounds"], x0=x0, args=args, callback=user_cb, **opts)
        else:
            f = stochopy.optimize.minimize if is_opt(case) else stochopy.sample.sample
            t.res = f(rec, case["bounds"], x0=x0, args=args, method=case["method"], options=opts, callback=user_cb)
    except Exception as e:
        if crash_ok:
            raise
        raise Violation(f"{case['method']} raised {type(e).__name__}: {e} on an admissible configuration") from e
    if record:
        t.X = np.array(rec.X) if rec.X else np.empty((0, len(case["bounds"])))
        t.raw = np.array(rec.F)
        t.F = np.where(np.isnan(t.raw), np.inf, t.raw)  # undefined counts as infinite
    return t


def gens(t, case):
    """Points and values grouped by generation (population optimizers, serial runs)."""
    p = case["opts"]["popsize"]
    k = len(t.F) // p
    n = t.X.shape[1]
    return t.X[: k * p].reshape(k, p, n), t.F[: k * p].reshape(k, p)


def same_result(a, b, keys=None):
    """Exact equality of two results (nan equals nan); returns the first differing field or None."""
    if keys is None:
        if set(a) != set(b):
            return "fields %s vs %s" % (sorted(a), sorted(b))
        keys = a.keys()
    for k in keys:
        va, vb = a[k], b[k]
        if isinstance(va, str) or isinstance(vb, str):
            if va != vb:
                return f"{k}: {va!r} vs {vb!r}"
        elif not np.array_equal(np.asarray(va, dtype=float), np.asarray(vb, dtype=float), equal_nan=True):
            return f"{k}: {np.asarray(va).tolist()!r:.120} vs {np.asarray(vb).tolist()!r:.120}"
    return None


def box_tol(bounds, ulps=4):
    b = np.asarray(bounds, dtype=float)
    return ulps * np.spacing(np.maximum(np.abs(b[:, 0]), np.abs(b[:, 1]))) + 1e-300 * (ulps > 0)


def inside(X, bounds, ulps=4):
    b = np.asarray(bounds, dtype=float)
    tol = box_tol(bounds, ulps)
    X = np.asarray(X, dtype=float)
    return bool(np.all(X >= b[:, 0] - tol) and np.all(X <= b[:, 1] + tol))
