"""P13: invalid arguments are rejected before any work; documented forms are accepted."""
import copy
import zlib

import numpy as np

from ..cases import OPTS, POP, SAMPLERS, bounds_st, obj_st, opt_st, samp_st
from ..core import Sub, Violation, require
from ..env import stochopy
from ..objectives import Obj
from ..trace import METHODS_OPT, METHODS_SAMP, Grad, is_opt, make_step, make_x0, same_result
from hypothesis import strategies as st


class Counted:
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, x, *a):
        self.n += 1
        return self.f(x, *a)


def prepare(case):
    obj = Counted(Obj(case["obj"], case["bounds"]))
    kw = dict(case["opts"])
    kw["x0"] = make_x0(case)
    if not is_opt(case):
        kw["stepsize"] = make_step(case)
        if case["method"] == "hmc" and case.get("jac"):
            kw["jac"] = Grad(obj.f)
    return obj, kw


def direct(case, fun, bounds, kw):
    f = (METHODS_OPT if is_opt(case) else METHODS_SAMP)[case["method"]]
    return f(fun, bounds, **kw)


def front(case, fun, bounds, kw, method=None):
    kw = dict(kw)
    x0, args, cb = kw.pop("x0", None), kw.pop("args", ()), kw.pop("callback", None)
    f = stochopy.optimize.minimize if is_opt(case) else stochopy.sample.sample
    return f(fun, bounds, x0=x0, args=args, method=case["method"] if method is None else method, options=kw, callback=cb)


UNDEFINED = [float("nan"), float("inf"), -float("inf"), np.float64("nan")]
COEFS = {
    "de": ["mutation", "recombination", "popsize"],
    "pso": ["inertia", "cognitivity", "sociability", "popsize"],
    "cpso": ["inertia", "cognitivity", "sociability", "competitivity", "popsize"],
    "na": ["nrperc", "popsize"],
    "cmaes": ["sigma", "muperc", "popsize"],
    "vdcma": ["sigma", "muperc", "popsize"],
    "mcmc": ["perc"],
}

# kind -> (methods it applies to, function of (case, draw value v in 0..999) -> overrides)
LOW = [-1e-9, -0.5, -1.0, -1e9]


def low(v):
    return LOW[v % 4]


def high(top):
    return lambda v: [top + 1e-9 * max(1, top), top * 1.5 + 0.1, top + 1.0, 1e9][v % 4]


def bad_x0(case, v):
    n = len(case["bounds"])
    p = case["opts"].get("popsize", 2)
    m = case["method"]
    lo = np.asarray(case["bounds"], dtype=float)[:, 0]
    if m in POP:
        pop = np.tile(lo, (p, 1))
        return [pop[: p - 1], np.tile(lo, (p + 1, 1)), np.hstack([pop, pop[:, :1]]), pop[:, : n - 1] if n > 1 else np.hstack([pop, pop]), lo, pop[None], pop.tolist()[:-1], np.zeros((n, p)) if n != p else 3.0][v % 8]
    return [np.append(lo, lo[0]), lo[:-1], np.append(lo, lo), lo.tolist() + [0.0], np.tile(lo, (n + 1, 1)), 3.0][v % 6]


def bad_bounds(case, v):
    b = case["bounds"]
    n = len(b)
    return [
        [r[0] for r in b],
        [r + [1.0] for r in b],
        [r[:1] for r in b],
        [b],
        b[0][0],
        np.array(b, dtype=float).ravel(),
        None,
        "bounds",
    ][v % 8]


def bad_callable(v):
    return [None, 3, "f", [1, 2]][v % 4]


KINDS = {
    "fun": (OPTS + SAMPLERS, lambda c, v: {"__fun": bad_callable(v)}),
    "bounds": (OPTS + SAMPLERS, lambda c, v: {"__bounds": bad_bounds(c, v)}),
    "x0": (OPTS + SAMPLERS, lambda c, v: {"x0": bad_x0(c, v)}),
    "callback": (OPTS + SAMPLERS, lambda c, v: {"callback": [3, "cb", [1], True, 0.0, False][v % 6]}),
    "popsize": (POP, lambda c, v: {"popsize": [1, 0, -1, -8][v % 4], "x0": None}),
    "popsize_es": (("cmaes", "vdcma"), lambda c, v: {"popsize": ([1, 0, -1] if c["method"] == "vdcma" else [0, -1, -8])[v % 3]}),
    "popsize_x0": (POP, lambda c, v: {"popsize": c["opts"]["popsize"] + 1 + v % 3, "x0": np.tile(np.asarray(c["bounds"], dtype=float)[:, 0], (c["opts"]["popsize"], 1))}),
    "small_de": (("de",), lambda c, v: dict([({"strategy": "rand1bin", "popsize": 3, "x0": None}), ({"strategy": "rand2bin", "popsize": 3 + v // 4 % 3, "x0": None}), ({"strategy": "best1bin", "popsize": 2, "x0": None}), ({"strategy": "best2bin", "popsize": 2 + v // 4 % 3, "x0": None})][v % 4])),
    "mutation": (("de",), lambda c, v: {"mutation": low(v) if v % 8 < 4 else high(2.0)(v)}),
    "recombination": (("de",), lambda c, v: {"recombination": low(v) if v % 8 < 4 else high(1.0)(v)}),
    "strategy": (("de",), lambda c, v: {"strategy": ["best3bin", "", "BEST1BIN", None, "rand1exp"][v % 5]}),
    "inertia": (("pso", "cpso"), lambda c, v: {"inertia": low(v) if v % 8 < 4 else high(1.0)(v)}),
    "cognitivity": (("pso", "cpso"), lambda c, v: {"cognitivity": low(v) if v % 8 < 4 else high(4.0)(v)}),
    "sociability": (("pso", "cpso"), lambda c, v: {"sociability": low(v) if v % 8 < 4 else high(4.0)(v)}),
    "competitivity": (("cpso",), lambda c, v: {"competitivity": low(v) if v % 8 < 4 else high(2.0)(v)}),
    "updating": (("de", "pso", "cpso"), lambda c, v: {"updating": ["sync", "", None, "Immediate", "async"][v % 5]}),
    "constraints": (("de", "pso", "cpso", "cmaes", "vdcma", "mcmc", "hmc"), lambda c, v: {"constraints": ["none", "Clip", "", "random", "penalize", "reject", "shrink"][v % 7]}),
    "cross_constraints": (("de", "pso", "cpso", "cmaes", "vdcma", "mcmc", "hmc"), lambda c, v: {"constraints": {"de": "Shrink", "pso": "Random", "cpso": "Penalize", "cmaes": "Random", "vdcma": "Reject", "mcmc": "Shrink", "hmc": "Random"}[c["method"]]}),
    "nrperc": (("na",), lambda c, v: {"nrperc": [0.0, -1e-9, -1.0][v % 3] if v % 6 < 3 else high(1.0)(v)}),
    "sigma": (("cmaes", "vdcma"), lambda c, v: {"sigma": [0.0, -1e-9, -1.0, 0][v % 4]}),
    "muperc": (("cmaes", "vdcma"), lambda c, v: {"muperc": [0.0, -1e-9, -1.0][v % 3] if v % 6 < 3 else high(1.0)(v)}),
    "backend": (OPTS, lambda c, v: {"workers": [2, 3, -1][v % 3], "backend": ["MPI", "threads", "dask", "multiprocessing", "x"][v % 5]}),
    "perc": (("mcmc",), lambda c, v: {"perc": low(v) if v % 8 < 4 else high(1.0)(v)}),
    "nleap": (("hmc",), lambda c, v: {"nleap": [0, -1, -10][v % 3]}),
    "jac": (("hmc",), lambda c, v: {"jac": ["2-point", 3, [1.0]][v % 3]}),
    "stepsize": (SAMPLERS, lambda c, v: {"stepsize": [[0.1] * (len(c["bounds"]) + 1), np.full(len(c["bounds"]) + 2, 0.1), [0.1] * (len(c["bounds"]) - 1) if len(c["bounds"]) > 1 else [0.1, 0.1]][v % 3]}),
    "method": (OPTS + SAMPLERS, lambda c, v: {"__method": ["bfgs", "", "DE", "mcmc" if is_opt(c) else "de"][v % 4]}),
    "undefined": (OPTS + ("mcmc",), lambda c, v: {COEFS[c["method"]][v // 4 % len(COEFS[c["method"]])]: UNDEFINED[v % 4]}),
    "option": (OPTS + SAMPLERS, lambda c, v: {["maxit", "pop_size", "tol", "disp"][v % 4]: 1}),
}


def check_bad(case):
    obj, kw = prepare(case)
    fun, bounds, method = obj, copy.deepcopy(case["bounds"]), None
    for k, v in KINDS[case["kind"]][1](case, case["v"]).items():
        if k == "__fun":
            fun = v
        elif k == "__bounds":
            bounds = v
        elif k == "__method":
            method = v
        else:
            kw[k] = v
    use_front = case["front"] or method is not None
    try:
        (front(case, fun, bounds, kw, method) if use_front else direct(case, fun, bounds, kw))
    except Exception as e:
        require(obj.n == 0, "%s: invalid %s (variant %d) raised %s only after %d objective calls", case["method"], case["kind"], case["v"], type(e).__name__, obj.n)
        return [case["method"], "bad:" + case["kind"], "raises " + type(e).__name__, "nontrivial"]
    raise Violation(f"{case['method']}: invalid {case['kind']} (variant {case['v']}) was accepted ({obj.n} objective calls)")


@st.composite
def base(draw, methods):
    opts = tuple(m for m in methods if m in OPTS)
    samp = tuple(m for m in methods if m in SAMPLERS)
    g = []
    if opts:
        g.append(opt_st(methods=opts, maxiter=(1, 4), maxdim=4, maxpop=9, big=False, rets=["float"]))
    if samp:
        g.append(samp_st(methods=samp, maxiter=(1, 6), maxdim=4))
    return draw(st.one_of(g))


# every kind of mistake, for every method it applies to, in every variant
MISTAKES = [(k, m, v) for k in sorted(KINDS) for m in KINDS[k][0] for v in range(24 if k in ("undefined", "small_de") else 8)]


@st.composite
def bad(draw):
    # hashed: generated integers are too clustered to reach every combination
    k, m, v = MISTAKES[zlib.crc32(repr([draw(st.integers(0, 999)) for _ in range(3)]).encode()) % len(MISTAKES)]
    c = draw(base((m,)))
    c["kind"], c["v"], c["front"] = k, v, draw(st.booleans())
    return c


# boundary values of every documented range
EDGES = {
    "de": {"mutation": [0.0, 2.0, 0, 2], "recombination": [0.0, 1.0, 0, 1], "popsize": [6]},
    "pso": {"inertia": [0.0, 1.0, 0, 1], "cognitivity": [0.0, 4.0, 0, 4], "sociability": [0.0, 4.0, 0, 4], "popsize": [2]},
    "cpso": {"inertia": [0.0, 1.0, 1], "cognitivity": [0.0, 4.0, 4], "sociability": [0.0, 4.0, 0], "competitivity": [None, 0.0, 2.0, 2, 0], "popsize": [2]},
    "na": {"nrperc": [1.0, 1, 1e-12], "popsize": [2]},
    "cmaes": {"muperc": [1.0, 1, 1e-12], "sigma": [1e-12, 1, 2.0]},
    "vdcma": {"muperc": [1.0, 1, 1e-12], "sigma": [1e-12, 1, 2.0]},
    "mcmc": {"perc": [0.0, 1.0, 0, 1]},
    "hmc": {"nleap": [1]},
}
WRAP = {"float64": np.float64, "int64": np.int64, "float32": np.float32, "int32": np.int32, "0d": np.array}


def check_forms(case):
    """Boundary values accepted; containers and scalar types of arguments do not matter."""
    m = case["method"]
    obj, kw = prepare(case)
    kw.update(case["edge"])
    if m == "de":
        kw["popsize"] = max(kw["popsize"], 6)
        kw["x0"] = None
    if "popsize" in case["edge"]:
        kw["x0"] = None
    if is_opt(case):
        kw["return_all"] = True
    try:
        ref = direct(case, obj, copy.deepcopy(case["bounds"]), dict(kw))
    except Exception as e:
        raise Violation(f"{m}: {type(e).__name__}: {e} for values inside the documented ranges: {case['edge']}") from e
    b = case["bounds"]
    alt = {
        "array": np.array(b, dtype=float),
        "tuple": tuple(tuple(r) for r in b),
        "mixed": [tuple(r) for r in b],
        "rows": [np.array(r, dtype=float) for r in b],
        "F": np.array(b, dtype=float, order="F"),
    }[case["bkind"]]
    kw2 = dict(kw)
    for k in case["wrap"]:
        v = kw2.get(k)
        if v is None or isinstance(v, (bool, str)) or np.ndim(v) != 0:
            continue
        t = case["wrap"][k]
        if isinstance(v, int):
            kw2[k] = {"float64": np.int64, "float32": np.int32, "int64": np.int64, "int32": np.int64, "0d": np.int64}[t](v)
        elif isinstance(v, float) and t in ("float64", "0d"):
            kw2[k] = np.float64(v)
    if kw2.get("x0") is not None:
        x = np.array(kw2["x0"], dtype=float)
        kw2["x0"] = {"list": x.tolist(), "array": x, "tuple": tuple(map(tuple, x.tolist())) if x.ndim == 2 else tuple(x.tolist())}[case["xkind"]]
    if "stepsize" in kw2:
        s = kw2["stepsize"]
        if np.ndim(s) == 0:
            s = [float(s)] * len(b)
        kw2["stepsize"] = {"list": list(s), "array": np.array(s, dtype=float), "tuple": tuple(s)}[case["xkind"]]
    kw2 = copy.deepcopy({k: v for k, v in kw2.items() if k != "jac"}) | ({"jac": kw2["jac"]} if "jac" in kw2 else {})
    try:
        got = direct(case, Counted(obj.f), alt, kw2)
    except Exception as e:
        raise Violation(f"{m}: {type(e).__name__}: {e} with bounds as {case['bkind']}, guess as {case['xkind']}, scalars {case['wrap']}") from e
    d = same_result(ref, got)
    require(d is None, "%s: result depends on the container or scalar type of an argument: %s", m, d)
    return [m, "bounds:" + case["bkind"], "nontrivial"]


@st.composite
def forms(draw):
    c = draw(base(OPTS + SAMPLERS))
    m = c["method"]
    c["edge"] = {k: draw(st.sampled_from(v)) for k, v in EDGES[m].items() if draw(st.booleans())}
    c["bkind"] = draw(st.sampled_from(["array", "tuple", "mixed", "rows", "F"]))
    c["xkind"] = draw(st.sampled_from(["list", "array", "tuple"]))
    names = sorted(set(c["opts"]) - {"strategy", "constraints", "updating"})
    c["wrap"] = {k: draw(st.sampled_from(["float64", "int64", "0d"])) for k in names if draw(st.booleans())}
    return c


SUBS = [
    Sub("invalid", bad, check_bad, 9000, 60000, f"one argument of a valid random call replaced by an invalid one ({len(MISTAKES)} combinations of argument, method and variant, drawn uniformly); all cases count as non-trivial"),
    Sub("forms", forms, check_forms, 3000, 30000, "range ends, containers and scalar types varied; all non-trivial"),
]


def _raises(f):
    try:
        f()
    except (ValueError, TypeError):
        return True
    return False


def _sphere(x):
    return float((np.asarray(x) ** 2).sum())


B2 = [[-1.0, 1.0]] * 2
# documented forms that the library rejects (known_findings.txt); the generators above do not produce them
FINDINGS = {
    "K01": lambda: any(_raises(lambda: METHODS_OPT[m](_sphere, B2, sigma=s, maxiter=2, popsize=4)) for m in ("cmaes", "vdcma") for s in ([0.1, 0.2], np.array([0.1, 0.2]))),
    "K02": lambda: _raises(lambda: METHODS_SAMP["hmc"](_sphere, B2, perc=1.0, maxiter=2)),
}
