"""P06: a seeded call is a pure function of its arguments and leaves them untouched."""
import copy
import random
import warnings

import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, Violation, require
from ..env import stochopy
from ..objectives import Obj
from ..trace import METHODS_OPT, METHODS_SAMP, Grad, is_opt, make_step, make_x0, run, same_result, snapshot
from ..zygote import Zygote
from hypothesis import strategies as st


class Fail(Exception):
    pass


def snap(v):
    """Deep, comparable picture of an argument: type, value, and for arrays dtype and layout."""
    if isinstance(v, np.ndarray):
        return ("nd", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snap(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((k, snap(x)) for k, x in v.items()))
    if callable(v):
        return ("fn", id(v))
    return (type(v).__name__, repr(v))


def make_bounds(case):
    b = case["bounds"]
    k = case.get("bkind", "list")
    if k == "array":
        return np.array(b, dtype=float)
    if k == "tuple":
        return tuple(map(tuple, b))
    if k == "tarray":  # columns in memory
        return np.array(b, dtype=float, order="F")
    if k == "int" and all(float(v).is_integer() for r in b for v in r):
        return np.array(b).astype(int)
    return copy.deepcopy(b)


def settings():
    return {
        "numpy's error handling": str(np.geterr()) + str(np.geterrcall()),
        "numpy's print options": repr(sorted(np.get_printoptions().items())),
        "the warning filters": repr(warnings.filters),
    }


def unusual(v):
    """numpy's error handling as some user may have set it (nothing that raises)."""
    quiet = ["ignore", "warn"]
    return np.errstate(divide=quiet[v % 2], over=quiet[v // 2 % 2], under=quiet[v // 4 % 2], invalid=quiet[v // 8 % 2])


def call(case, fail=None, watch=True):
    """One library call; returns (result dict | exception text, violations of argument purity)."""
    obj = Obj(case["obj"], case["bounds"])
    count = [0]

    def fun(x, *args):
        count[0] += 1
        if fail is not None and count[0] > fail:
            raise Fail("planned")
        return obj(x, *args)

    bounds, x0 = make_bounds(case), make_x0(case)
    if x0 is not None and isinstance(x0, np.ndarray) and case.get("readonly"):
        x0.setflags(write=False)
    opts = dict(case["opts"])
    args = case.get("args")
    args = tuple(args) if args is not None else ()
    if args and case.get("arglist"):
        args = (np.array([0.0, 1.0]),)  # an array argument the objective ignores
    if not is_opt(case):
        opts["stepsize"] = make_step(case)
        if case["method"] == "hmc" and case.get("jac"):
            opts["jac"] = Grad(obj)
    else:
        opts["return_all"] = True
    for k in case.get("omit", ()):  # left to its default
        opts.pop(k, None)
    seen = []
    cb = (lambda X, s: seen.append(1)) if case.get("cb") else None
    if case.get("front"):
        f = stochopy.optimize.minimize if is_opt(case) else stochopy.sample.sample
        kw = dict(fun=fun, bounds=bounds, x0=x0, args=args, method=case["method"], options=opts, callback=cb)
    else:
        f = (METHODS_OPT if is_opt(case) else METHODS_SAMP)[case["method"]]
        kw = dict(fun=fun, bounds=bounds, x0=x0, args=args, callback=cb, **opts)
    before = {k: snap(v) for k, v in kw.items()}
    with unusual(case["opts"].get("seed") or 0):
        world = settings()
        try:
            out = dict(f(**kw))
        except Fail:
            out = "failed as planned"
        except Exception as e:
            raise Violation(f"{case['method']} raised {type(e).__name__}: {e} on an admissible configuration") from e
        now = settings()
    after = {k: snap(v) for k, v in kw.items()}
    if watch:
        for k in world:
            require(world[k] == now[k], "%s (%s) left %s changed", case["method"], "failing call" if isinstance(out, str) else "completed call", k)
        for k in before:
            require(before[k] == after[k], "%s modified its argument %r", case["method"], k)
    return out


_zyg = None


def zyg():
    global _zyg
    if _zyg is None:
        _zyg = Zygote(lambda case: call(case, watch=False))
    return _zyg


def disturb(step):
    k, v = step["kind"], step["v"]
    if k == "seed":
        np.random.seed(v % 2**32)
    elif k == "draw":
        np.random.rand(v % 97)
    elif k == "gauss":  # leaves a cached half of a Box-Muller pair behind
        np.random.randn(1 + 2 * (v % 3))
    elif k in ("opt", "near"):
        call(step["case"])
    elif k == "fail":
        call(step["case"], fail=v % 30)
    elif k == "noseed":
        c = copy.deepcopy(step["case"])
        c["opts"]["seed"] = None
        if step["v"] % 2:
            del c["opts"]["seed"]
        call(c)


def check(case):
    tgt = case["target"]
    status, base = zyg()(tgt)
    require(status == "ok", "%s: %s", tgt["method"], base)
    first = call(tgt)
    d = same_result(base, first)
    require(d is None, "%s: differs from the same call in a fresh process: %s", tgt["method"], d)
    for i, s in enumerate(case["history"]):
        disturb(s)
        d = same_result(base, first)
        require(d is None, "%s: a result already returned was changed by a later call (%s): %s", tgt["method"], s["kind"], d)
        if s.get("again"):
            d = same_result(base, call(tgt))
            require(d is None, "%s: result changed after %s: %s", tgt["method"], s["kind"], d)
    d = same_result(base, call(tgt))
    require(d is None, "%s: result changed after the history: %s", tgt["method"], d)
    if case.get("scribble"):
        # the caller owns what was returned to it
        for v in first.values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = np.nan if v.dtype.kind == "f" else 7
        d = same_result(base, call(tgt))
        require(d is None, "%s: overwriting a returned result changed the next call: %s", tgt["method"], d)
    lab = [tgt["method"]] + sorted({"h:" + s["kind"] for s in case["history"]})
    if any(s["kind"] in ("opt", "near", "fail", "noseed") for s in case["history"]):
        lab.append("nontrivial")
    return lab


@st.composite
def one(draw, maxiter=(1, 12)):
    c = draw(st.one_of(opt_st(maxiter=maxiter, maxdim=4, maxpop=10), samp_st(maxiter=(1, 20) if maxiter[0] == 1 else maxiter)))
    c["bkind"] = draw(st.sampled_from(["list", "array", "tuple", "tarray", "int"]))
    c["front"] = draw(st.booleans())
    c["cb"] = draw(st.booleans())
    c["readonly"] = draw(st.booleans())
    if draw(st.booleans()):
        keep = {"maxiter", "popsize", "seed"}
        c["omit"] = draw(st.lists(st.sampled_from(sorted(set(c["opts"]) - keep) + ["return_all"]), max_size=4, unique=True))
    if draw(st.booleans()):
        c["args"] = [draw(st.sampled_from([0.0, 2.5]))]
        c["arglist"] = draw(st.booleans())
    c["opts"]["seed"] = draw(st.one_of(st.sampled_from([0, 1, 42, 2**32 - 1]), st.integers(0, 2**32 - 1)))
    return c


@st.composite
def near(draw, tgt):
    """The same call with one or two ingredients taken from another one."""
    n = len(tgt["bounds"])
    c = copy.deepcopy(tgt)
    if is_opt(c):
        o = draw(opt_st(methods=(c["method"],), maxiter=(1, 12), mindim=n, maxdim=n, maxpop=10, big=False))
    else:
        o = draw(samp_st(methods=(c["method"],), maxiter=(1, 20), mindim=n, maxdim=n, big=False, jac=bool(c.get("jac"))))
    what = ["bounds", "obj", "x0", "args"] + sorted((set(o["opts"]) | set(c["opts"])) - {"strategy", "finite_diff_abs_step"})
    for k in draw(st.lists(st.sampled_from(what), min_size=1, max_size=2, unique=True)):
        if k == "args":
            c["args"] = None if c.get("args") else [2.5]
        elif k in ("bounds", "obj", "x0"):
            c.pop(k, None)
            if k in o:
                c[k] = o[k]
        elif k == "popsize":
            c["opts"][k] += 1 + draw(st.integers(0, 3))
        else:
            c["opts"].pop(k, None)
            if k in o["opts"]:
                c["opts"][k] = o["opts"][k]
    return c


@st.composite
def histories(draw, maxiter=(1, 12)):
    tgt = draw(one(maxiter=maxiter))
    hist = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["seed", "draw", "gauss", "opt", "near", "near", "fail", "noseed"]))
        s = {"kind": k, "v": draw(st.integers(0, 1000))}
        if k == "near":
            s["case"] = draw(near(tgt))
        if k in ("opt", "fail", "noseed"):
            # often the same method again, with other settings
            s["case"] = draw(one()) if draw(st.booleans()) else dict(copy.deepcopy(tgt), opts={**tgt["opts"], "seed": draw(st.integers(0, 9))})
        if draw(st.integers(0, 2)) == 0:
            s["again"] = True
        hist.append(s)
    return {"target": tgt, "history": hist, "scribble": draw(st.booleans())}


def check_nested(case):
    """A call made from inside another one: neither may notice the other (the generator's state is put back)."""
    out, inn = case["outer"], case["inner"]
    what = out["method"]
    plain = run(out, callback=True, return_all=True)
    alone = run(inn, callback=True, return_all=True)
    got = []

    def inside():
        state = np.random.get_state()
        got.append(run(inn, callback=True, return_all=True))
        np.random.set_state(state)

    obj = Obj(out["obj"], out["bounds"])
    k = [0]

    def fun(x, *args):
        k[0] += 1
        if case["where"] == "before" and k[0] % case["every"] == 0:
            inside()
        v = obj(x, *args)
        if case["where"] == "after" and k[0] % case["every"] == 0:
            inside()
        return v

    reports = []

    def cb(X, state):
        if case["where"] == "callback" and len(reports) % case["every"] == 0:
            inside()
        reports.append(snapshot(X, state))

    outer = run(out, callback=cb, fun=fun, return_all=True, jac=Grad(obj) if out.get("jac") else None)
    for t in got[:1] + got[-1:]:
        d = same_result(alone.res, t.res)
        require(d is None, "%s called inside %s (%s): its result differs from that of the same call alone: %s", inn["method"], what, case["where"], d)
        require(np.array_equal(alone.X, t.X), "%s called inside %s: evaluates other points", inn["method"], what)
    require(np.array_equal(plain.X, outer.X), "%s evaluates other points when %s is called inside (%s)", what, inn["method"], case["where"])
    d = same_result(plain.res, outer.res)
    require(d is None, "%s: result changed by calls of %s inside (%s): %s", what, inn["method"], case["where"], d)
    require(len(reports) == len(plain.cb), "%s: %d reports instead of %d", what, len(reports), len(plain.cb))
    for u, v in zip(plain.cb, reports):
        d = same_result(u["state"], v["state"])
        require(d is None and np.array_equal(u["X"], v["X"]), "%s: a report changed by calls of %s inside (%s): %s", what, inn["method"], case["where"], d)
    lab = [what, inn["method"], case["where"]] + (["same method"] if what == inn["method"] else [])
    if got and len(plain.cb) > 2 and len(alone.cb) > 1:
        lab.append("nontrivial")
    return lab


@st.composite
def nested(draw):
    out = draw(one(maxiter=(2, 8)))
    if draw(st.integers(0, 2)):
        inn = draw(near(out))
        inn["opts"]["seed"] = draw(st.integers(0, 2**31))
    else:
        inn = draw(one(maxiter=(2, 5)))
    for c in (out, inn):
        for k in ("args", "omit"):
            c.pop(k, None)
        c["opts"]["maxiter"] = min(c["opts"]["maxiter"], 8)
    return {"outer": out, "inner": inn, "where": draw(st.sampled_from(["before", "after", "callback"])), "every": draw(st.sampled_from([1, 3, 7]))}


class Garbage:
    """numpy.empty and numpy.empty_like return arrays filled with given garbage (their content is unspecified)."""

    def __init__(self, v):
        self.v, self.k = v, 0

    def fill(self, a):
        if a.dtype.kind == "f" and a.size:
            self.k += 1
            a[...] = self.v if self.v is not None else np.sin(np.arange(a.size) * 1.7 + self.k).reshape(a.shape) * 3
        return a

    def __enter__(self):
        self.real = np.empty, np.empty_like
        e, el = self.real
        np.empty = lambda *a, **k: self.fill(e(*a, **k))
        np.empty_like = lambda *a, **k: self.fill(el(*a, **k))
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = self.real


def check_garbage(case):
    base, used = None, 0
    for v in (float("nan"), 1e300, 0.0, None, -7.0):
        with Garbage(v) as g:
            out = call(case)
        used += g.k
        if base is None:
            base = out
        d = same_result(base, out)
        require(d is None, "%s: the result depends on the content of uninitialised memory (%r): %s", case["method"], v, d)
    return [case["method"]] + (["nontrivial"] if used else [])


@st.composite
def uninitialised(draw):
    c = draw(one())
    if is_opt(c) and c["opts"].get("constraints") == "Penalize" and draw(st.booleans()):
        # the mean starts outside the bounds
        c["x0"] = {"seed": draw(st.integers(0, 99)), "grid": 1000, "kind": "array", "at": draw(st.sampled_from([0.5, 1.5, -1.0, 3.0])), "spread": draw(st.sampled_from([1.0, 5.0])), "out": True}
    return c


REPEATS = 150


def check_layout(case):
    """Many identical calls between which the heap changes: addresses of temporaries must not show in the result."""
    junk, r = [], random.Random(case["junk"])
    base = None
    for k in range(case.get("repeats", REPEATS)):
        out = run(case, callback=k % 2 == 0, return_all=True).res
        if base is None:
            base = out
        d = same_result(base, out)
        require(d is None, "%s: call %d of %d identical ones differs (memory layout): %s", case["method"], k + 1, REPEATS, d)
        junk.append(np.empty(r.randrange(1, 300)))
        while len(junk) > 50:
            junk.pop(r.randrange(50))
    return [case["method"], "nontrivial"]


@st.composite
def layouts(draw):
    c = draw(st.one_of(opt_st(methods=("cmaes", "vdcma"), constraints="on", maxiter=(4, 12), maxdim=4, maxpop=10, big=False), opt_st(maxiter=(4, 12), maxpop=10, big=False), samp_st(maxiter=(5, 20), big=False)))
    c["junk"] = draw(st.integers(0, 999))
    return c


RULE = "history of other calls (completed, failing, unseeded), reseeding and draws between identical seeded calls, against the same call in a fresh process; non-trivial when the history contains a library call"
SUBS = [
    Sub("history", histories, check, 4000, 50000, RULE),
    Sub("long", lambda: histories(maxiter=(30, 300)), check, 160, 3000, "the same for long runs; " + RULE),
    Sub("nested", nested, check_nested, 500, 6000, "calls made from inside the objective or the callback of another call; non-trivial when both made several reports"),
    Sub("layout", layouts, check_layout, 64, 1600, "150 identical calls among allocations that move temporaries; all non-trivial"),
    Sub("uninitialised", uninitialised, check_garbage, 800, 10000, "same call with numpy.empty returning five kinds of garbage; non-trivial when the call allocates such memory"),
]
