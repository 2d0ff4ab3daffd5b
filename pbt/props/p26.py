"""P26: front-ends are transparent: dispatch, documented defaults, extra arguments, PSO as CPSO."""
import numpy as np

from ..cases import SAMPLERS, opt_st, samp_st, x0_pop_st
from ..core import Sub, Violation, require
from ..env import stochopy
from ..objectives import Obj
from ..trace import METHODS_OPT, METHODS_SAMP, Grad, is_opt, make_step, make_x0, same_result
from hypothesis import strategies as st

GEN = {"maxiter": 100, "seed": None, "return_all": False, "callback": None, "x0": None, "args": ()}
POPD = {"popsize": 10, "xtol": 1e-8, "ftol": 1e-8, "workers": 1, "backend": None, "verbosity": 1.0}
DEFAULTS = {
    "de": {**GEN, **POPD, "mutation": 0.5, "recombination": 0.9, "strategy": "best1bin", "constraints": None, "updating": "immediate"},
    "pso": {**GEN, **POPD, "inertia": 0.7298, "cognitivity": 1.49618, "sociability": 1.49618, "constraints": None, "updating": "immediate"},
    "cpso": {**GEN, **POPD, "inertia": 0.7298, "cognitivity": 1.49618, "sociability": 1.49618, "competitivity": 1.0, "constraints": None, "updating": "immediate"},
    "na": {**GEN, **POPD, "nrperc": 0.5},
    "cmaes": {**GEN, **POPD, "sigma": 0.1, "muperc": 0.5, "constraints": None},
    "vdcma": {**GEN, **POPD, "sigma": 0.1, "muperc": 0.5, "constraints": None},
    "mcmc": {**GEN, "stepsize": 0.1, "perc": 1.0, "constraints": None, "return_all": True},
    "hmc": {**GEN, "nleap": 10, "stepsize": 0.01, "jac": None, "finite_diff_abs_step": 1e-4, "constraints": None, "return_all": True},
}


class Rec:
    def __init__(self, obj, seen=None):
        self.obj, self.X, self.F, self.args = obj, [], [], seen if seen is not None else []

    def __call__(self, x, *a):
        self.args.append(a)
        v = self.obj(x)
        self.X.append(np.array(x, dtype=float))
        self.F.append(float(v))
        return v


def call(how, case, fun, kw, omit=()):
    m = case["method"]
    kw = {k: v for k, v in kw.items() if k not in omit}
    opt = is_opt(case)
    try:
        if how == "direct":
            return (METHODS_OPT if opt else METHODS_SAMP)[m](fun, case["bounds"], **kw)
        x0, args, cb = kw.pop("x0", None), kw.pop("args", ()), kw.pop("callback", None)
        f = stochopy.optimize.minimize if opt else stochopy.sample.sample
        if how == "front":
            return f(fun, case["bounds"], x0=x0, args=args, method=m, options=kw, callback=cb)
        return f(fun, case["bounds"], x0, args, m, kw if kw else None, cb)  # positional, in the documented order
    except Exception as e:
        raise Violation(f"{m} ({how}) raised {type(e).__name__}: {e}") from e


def full(case):
    kw = {**DEFAULTS[case["method"]], **case["opts"]}
    kw["x0"] = make_x0({**case, "opts": {**case["opts"], "popsize": kw.get("popsize", 2)}})
    if "step" in case:
        kw["stepsize"] = make_step(case)
    if case.get("jac"):
        kw["jac"] = Grad(Obj(case["obj"], case["bounds"]))
    return kw


def pair(m, what, a, b):
    (ra, fa), (rb, fb) = a, b
    X, Y = np.array(fa.X), np.array(fb.X)
    require(X.shape == Y.shape and np.array_equal(X, Y), "%s: %s evaluates other points (%d and %d evaluations)", m, what, len(X), len(Y))
    d = same_result(ra, rb)
    require(d is None, "%s: %s: %s", m, what, d)


def check_front(case):
    m = case["method"]
    kw = full(case)
    calls = []
    cb = lambda X, s: calls.append((np.array(X), s["fun"], s["nit"]))  # noqa: E731
    if case["cb"]:
        kw["callback"] = cb
    f = Rec(Obj(case["obj"], case["bounds"]))
    ref = (call("direct", case, f, dict(kw)), f)
    n = len(calls)
    for how in ("front", "positional"):
        g = Rec(Obj(case["obj"], case["bounds"]))
        pair(m, f"calling through the front-end ({how})", ref, (call(how, case, g, dict(kw)), g))
    require(len(calls) == 3 * n, "%s: %d callbacks directly, %d through the two front-end calls", m, n, len(calls) - n)
    return [m, "nontrivial"] if len(f.X) > 3 else [m]


def check_defaults(case):
    m = case["method"]
    kw = full(case)
    d = DEFAULTS[m]
    omit = [k for k in case["omit"] if k in d and k != "seed"]
    for k in omit:
        kw[k] = d[k]
    if "popsize" in omit:
        kw["x0"] = None
    f, g = Rec(Obj(case["obj"], case["bounds"])), Rec(Obj(case["obj"], case["bounds"]))
    a = (call("direct", case, f, dict(kw)), f)
    b = (call(case["how"], case, g, dict(kw), omit), g)
    pair(m, f"leaving out {omit} instead of passing the documented defaults", a, b)
    if case["how"] == "front" and m in ("de", "mcmc"):
        h = Rec(Obj(case["obj"], case["bounds"]))
        k2 = {k: v for k, v in kw.items() if k not in ("x0", "args", "callback")}
        fn = stochopy.optimize.minimize if m == "de" else stochopy.sample.sample
        pair(m, "leaving out the method", a, (fn(h, case["bounds"], x0=kw["x0"], options=k2), h))
    return [m] + [f"omit {k}" for k in omit] + (["nontrivial"] if len(omit) >= 2 else [])


ARGS = {
    "none": (),
    "number": (2.5,),
    "several": (1, "text", None, 3.5),
    "dict": ({"a": [1, 2]},),
    "array": (np.arange(3.0), [1, 2]),
    "tuple": ((1, 2), (3,)),
    "fun": (np.sin, object()),
    "five": (1, 2, 3, 4, 5),
}


def check_args(case):
    m = case["method"]
    kw = full(case)
    args = ARGS[case["args"]]
    seen = []
    f = Rec(Obj(case["obj"], case["bounds"]), seen)
    kw["args"] = list(args) if case["aslist"] else args
    gseen = []
    if case.get("jac"):
        g0 = kw["jac"]

        def jac(x, *a):
            gseen.append(a)
            return g0(x)

        kw["jac"] = jac
    if m in METHODS_OPT and case["threads"]:
        kw["workers"] = 2
        kw["backend"] = "threading"
        if "updating" in DEFAULTS[m]:
            kw["updating"] = "deferred"
    a = (call(case["how"], case, f, dict(kw)), f)
    for what, s in (("objective", seen), ("gradient", gseen)):
        for t in s:
            require(len(t) == len(args) and all(p is q for p, q in zip(t, args)), "%s: the %s received the extra arguments %r instead of %r", m, what, t, args)
    require(not case.get("jac") or gseen or kw["maxiter"] == 1, "%s: the gradient was not called", m)
    # the same problem with the arguments bound beforehand
    g = Rec(Obj(case["obj"], case["bounds"]))
    kw["args"] = ()
    kw.pop("workers", None) if m in METHODS_OPT else None
    kw.pop("backend", None)
    b = call("direct", case, g, dict(kw))
    d = same_result(a[0], b)
    require(d is None, "%s: extra arguments change the result of an objective that ignores them: %s", m, d)
    return [m, case["args"], "threads" if case["threads"] and m in METHODS_OPT else "serial"] + (["nontrivial"] if args else [])


def check_pso(case):
    kw = full({**case, "method": "pso"})
    f, g = Rec(Obj(case["obj"], case["bounds"])), Rec(Obj(case["obj"], case["bounds"]))
    a = (call(case["how"], {**case, "method": "pso"}, f, dict(kw)), f)
    kw["competitivity"] = case["comp"]
    b = (call(case["how"], {**case, "method": "cpso"}, g, dict(kw)), g)
    pair("pso", f"compared with cpso at competitivity {case['comp']!r}", a, b)
    return [str(case["comp"]), kw["updating"], str(kw["constraints"])] + (["nontrivial"] if len(f.X) > 2 * kw["popsize"] else [])


@st.composite
def anycase(draw):
    c = draw(st.one_of(opt_st(maxiter=(1, 12)), opt_st(maxiter=(1, 12)), samp_st(maxiter=(1, 25))))
    if draw(st.booleans()):
        c["opts"]["return_all"] = draw(st.booleans())
        if c["method"] not in SAMPLERS:
            c["opts"]["verbosity"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    return c


@st.composite
def front(draw):
    c = draw(anycase())
    c["cb"] = draw(st.booleans())
    return c


@st.composite
def defaults(draw):
    c = draw(anycase())
    m = c["method"]
    ks = [k for k in DEFAULTS[m] if k != "seed"]
    c["omit"] = draw(st.lists(st.sampled_from(sorted(ks)), min_size=1, max_size=len(ks), unique=True))
    if draw(st.integers(0, 3)) == 0:
        c["omit"] = sorted(ks)
    if "popsize" in c["omit"]:
        c.pop("x0", None)
        if m == "de" and "strategy" in c["opts"] and draw(st.booleans()):
            pass
    if m == "de" and "strategy" not in c["omit"] and c["opts"].get("popsize", 10) < 6:
        c["opts"]["popsize"] = 6
        c.pop("x0", None)
    c["how"] = draw(st.sampled_from(["direct", "front", "positional"]))
    return c


@st.composite
def withargs(draw):
    c = draw(anycase())
    if c["opts"].get("updating") == "immediate":
        c["opts"]["updating"] = "deferred"
    c["args"] = draw(st.sampled_from(sorted(ARGS)))
    c["aslist"] = draw(st.integers(0, 4)) == 0
    c["threads"] = draw(st.integers(0, 4)) == 0
    c["how"] = draw(st.sampled_from(["direct", "front"]))
    return c


@st.composite
def pso(draw):
    c = draw(opt_st(methods=("pso",), maxiter=(1, 25)))
    c["comp"] = draw(st.sampled_from([None, 0.0, 0]))
    c["opts"]["return_all"] = True
    c["how"] = draw(st.sampled_from(["direct", "front"]))
    return c


def check_bare(case):
    """No options at all (absent, None or empty), from a prepared state of the global generator."""
    m = case["method"]
    opt = m in METHODS_OPT
    fn = stochopy.optimize.minimize if opt else stochopy.sample.sample
    d = {k: v for k, v in DEFAULTS[m].items() if k not in ("x0", "args", "callback")}
    out = []
    first = {"de", "mcmc"}
    for way in ("full", case["way"]):
        f = Rec(Obj(case["obj"], case["bounds"]))
        np.random.seed(case["state"])
        kw = {"full": {"options": d}, "none": {"options": None}, "empty": {"options": {}}, "absent": {}}[way]
        if not (way != "full" and m in first and case["nomethod"]):
            kw["method"] = m
        try:
            out.append((fn(f, case["bounds"], **kw), f))
        except Exception as e:
            raise Violation(f"{m} with options {way} raised {type(e).__name__}: {e}") from e
    pair(m, f"options {case['way']} instead of the documented defaults", *out)
    return [m, case["way"], "nontrivial"]


@st.composite
def bare(draw):
    c = draw(st.one_of(opt_st(maxdim=3, big=False), samp_st(maxdim=3, big=False)))
    return {"method": c["method"], "bounds": c["bounds"], "obj": c["obj"], "state": draw(st.integers(0, 2**31)), "way": draw(st.sampled_from(["none", "empty", "absent"])), "nomethod": draw(st.booleans())}


SUBS = [
    Sub("bare", bare, check_bare, 400, 4000, "calls without any option from a prepared generator state"),
    Sub("front", front, check_front, 1200, 12000, "more than three evaluations, called directly and through the front-end by keyword and by position"),
    Sub("defaults", defaults, check_defaults, 1600, 16000, "two or more options left out against their documented defaults"),
    Sub("args", withargs, check_args, 1200, 12000, "non-empty extra arguments, compared by identity at every call"),
    Sub("pso", pso, check_pso, 1200, 12000, "PSO against CPSO without competition over more than two generations"),
]
