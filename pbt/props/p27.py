"""P27: errors raised by user functions surface and leave the library usable."""
import numpy as np

from ..cases import opt_st, samp_st
from ..core import Sub, Violation, require
from ..objectives import Delayed, Obj
from ..trace import METHODS_OPT, METHODS_SAMP, Grad, is_opt, make_step, make_x0, same_result
from .p06 import settings, unusual
from hypothesis import strategies as st


class Boom(Exception):
    """User-defined error with state."""

    def __init__(self, code, extra=None):
        super().__init__(code, extra)
        self.code = code


class Stop(BaseException):
    pass


ERR = {
    "Boom": lambda k: Boom(k, "x"),
    "ValueError": lambda k: ValueError("bad", k),
    "KeyError": lambda k: KeyError(k),
    "ZeroDivisionError": lambda k: ZeroDivisionError(str(k)),
    "TypeError": lambda k: TypeError(f"own {k}"),
    "MemoryError": lambda k: MemoryError(k),
    "AttributeError": lambda k: AttributeError(f"own {k}"),
    "IndexError": lambda k: IndexError(k),
    "KeyboardInterrupt": lambda k: KeyboardInterrupt(k),
    "Stop": lambda k: Stop(k),
    "StopIteration": lambda k: StopIteration("own", k),
    "GeneratorExit": lambda k: GeneratorExit(k),
    "SystemExit": lambda k: SystemExit(k),
    "OverflowError": lambda k: OverflowError(k),
    "FloatingPointError": lambda k: FloatingPointError(k),
    "RuntimeError": lambda k: RuntimeError(k),
    "RecursionError": lambda k: RecursionError(k),
    "NotImplementedError": lambda k: NotImplementedError(k),
    "OSError": lambda k: OSError(5, f"own {k}"),
    "ImportError": lambda k: ImportError(f"own {k}"),
    "AssertionError": lambda k: AssertionError(k),
    "LinAlgError": lambda k: np.linalg.LinAlgError(f"own {k}"),
    "UserWarning": lambda k: UserWarning(k),
}


class Failing:
    """Raises at its k-th call (0-based); counts calls."""

    def __init__(self, f, k, err):
        self.f, self.k, self.err, self.n = f, k, err, 0

    def __call__(self, x, *a):
        self.n += 1
        if self.n - 1 == self.k:
            raise ERR[self.err](self.k)
        return self.f(x, *a)


class FailsNear:
    """Fails at one particular point (for workers that share no counter)."""

    def __init__(self, f, x, err):
        self.f, self.x, self.err = f, x, err

    def __call__(self, x, *a):
        if np.array_equal(x, self.x):
            raise ERR[self.err](11)
        return self.f(x, *a)


def go(case, fun, callback=None, jac=None, **over):
    o = {**case["opts"], **over}
    if is_opt(case):
        return METHODS_OPT[case["method"]](fun, case["bounds"], x0=make_x0(case), callback=callback, **o)
    o["stepsize"] = make_step(case)
    if jac is not None:
        o["jac"] = jac
    return METHODS_SAMP[case["method"]](fun, case["bounds"], x0=make_x0(case), callback=callback, **o)


def clean(case, jac=None):
    obj = Obj(case["obj"], case["bounds"])
    f, c = Failing(obj, -1, "Boom"), [0]
    g = Failing(Grad(obj), -1, "Boom") if case.get("jac") else None

    def cb(X, s):
        c[0] += 1

    r = go(case, f, cb, g, return_all=True)
    return r, f.n, c[0], g.n if g else 0


def expect(m, what, err, k, f):
    want = ERR[err](k)
    try:
        f()
    except BaseException as e:
        require(type(e) is type(want), "%s: %s raised %s, the caller sees %s: %s", m, what, type(want).__name__, type(e).__name__, e)
        require(e.args == want.args and str(e) == str(want), "%s: %s raised %r, the caller sees %r", m, what, want.args, e.args)
        return e
    raise Violation(f"{m}: {what} raised {type(want).__name__} but the call returned normally")


def check_serial(case):
    m = case["method"]
    base, nf, nc, ng = clean(case)
    where = case["where"]
    total = {"fun": nf, "callback": nc, "jac": ng}[where]
    if total == 0:
        where, total = "fun", nf
    k = min(total - 1, int(case["at"] * total))
    obj = Obj(case["obj"], case["bounds"])
    f = Failing(obj, k if where == "fun" else -1, case["err"])
    g = Failing(Grad(obj), k if where == "jac" else -1, case["err"]) if case.get("jac") else None
    fc = Failing(lambda X, s: None, k if where == "callback" else -1, case["err"])
    at = [None]

    def count(x, *a):
        if at[0] is not None:
            at[0] += 1
        try:
            return f(x, *a)
        except BaseException:
            at[0] = 0
            raise

    def jac(x, *a):
        if at[0] is not None:
            at[0] += 1
        try:
            return g(x, *a)
        except BaseException:
            at[0] = 0
            raise

    def cb(X, s):
        if at[0] is not None:
            at[0] += 1
        try:
            fc(X, s)
        except BaseException:
            at[0] = 0
            raise

    extra = {"backend": "mpi"} if case.get("mpi") and is_opt(case) else {}
    with unusual(case["opts"].get("seed") or 0):
        world = settings()
        expect(m, f"{where} at call {k}", case["err"], k, lambda: go(case, count, cb, jac if g else None, return_all=True, **extra))
        now = settings()
    for what, v in now.items():
        require(v == world[what], "%s: a failure of the %s at call %d left %s changed", m, where, k, what)
    require(at[0] == 0, "%s: %s user calls after the %s failed at call %d", m, at[0], where, k)
    again, *_ = clean(case)
    d = same_result(base, again)
    require(d is None, "%s: after a failure of the %s at call %d an identical seeded call gives another result: %s", m, where, k, d)
    lab = [m, where, case["err"]] + (["mpi"] if extra else [])
    if 0 < k < total - 1:
        lab.append("nontrivial")
    return lab


def check_each(case):
    """Every kind of error from every kind of user function."""
    m = case["method"]
    base, nf, nc, ng = clean(case)
    obj = Obj(case["obj"], case["bounds"])
    for where, total in (("fun", nf), ("callback", nc), ("jac", ng)):
        if total:
            k = min(total - 1, int(case["at"] * total))
            for err in ERR:
                f = Failing(obj, k if where == "fun" else -1, err)
                g = Failing(Grad(obj), k if where == "jac" else -1, err) if case.get("jac") else None
                cb = Failing(lambda X, s: None, k if where == "callback" else -1, err)
                expect(m, f"{where} at call {k}", err, k, lambda: go(case, f, cb, g))
                n = {"fun": f, "callback": cb, "jac": g}[where].n
                require(n == k + 1, "%s: the %s was called %d times although call %d failed", m, where, n, k)
    again, *_ = clean(case)
    d = same_result(base, again)
    require(d is None, "%s: after failures an identical seeded call gives another result: %s", m, d)
    return [m] + (["nontrivial"] if nc > 1 else [])


def check_parallel(case):
    m = case["method"]
    obj = Obj(case["obj"], case["bounds"])
    X = []
    base = go(case, lambda x: (X.append(np.array(x)), obj(x))[1], None, workers=1, return_all=True)
    k = min(len(X) - 1, int(case["at"] * len(X)))
    slow = Delayed(obj, 2e-4) if case["delay"] else obj
    over = dict(workers=case["workers"], backend=case["backend"], return_all=True)
    if case["where"] == "callback":
        kk = min(base.nit - 1, int(case["at"] * base.nit))
        cb = Failing(lambda X, s: None, kk, case["err"])
        expect(m, f"callback at iteration {kk} ({case['backend']})", case["err"], kk, lambda: go(case, slow, cb, **over))
    else:
        expect(m, f"objective at one point ({case['backend']}, {case['workers']} workers)", case["err"], 11, lambda: go(case, FailsNear(slow, X[k], case["err"]), None, **over))
    again = go(case, obj, None, **{**over, "workers": case["workers"] if case["after"] else 1})
    d = same_result(base, again)
    require(d is None, "%s: after a failure with %s workers an identical seeded call gives another result: %s", m, case["backend"], d)
    return [m, case["backend"], case["where"], "nontrivial"]


@st.composite
def serial(draw):
    c = draw(st.one_of(opt_st(maxiter=(1, 10), finite=True), samp_st(maxiter=(1, 15))))
    c["where"] = draw(st.sampled_from(["fun", "callback", "jac"] if c.get("jac") else ["fun", "fun", "callback"]))
    c["at"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), st.integers(0, 32).map(lambda k: k / 32)))
    c["err"] = draw(st.sampled_from(sorted(ERR)))
    c["mpi"] = draw(st.integers(0, 5)) == 0
    if c["mpi"] and c["opts"].get("updating"):
        c["opts"]["updating"] = "deferred"
    return c


@st.composite
def each(draw):
    c = draw(st.one_of(opt_st(maxiter=(1, 6), finite=True, maxpop=8, big=False), samp_st(maxiter=(1, 8))))
    c["at"] = draw(st.integers(0, 8).map(lambda k: k / 8))
    return c


@st.composite
def parallel(draw, backends=("threading",)):
    c = draw(opt_st(maxiter=(1, 5), finite=True, updating=("deferred",), maxpop=9, big=False))
    c["where"] = draw(st.sampled_from(["fun", "fun", "callback"]))
    c["at"] = draw(st.integers(0, 32).map(lambda k: k / 32))
    c["err"] = draw(st.sampled_from(["Boom", "ValueError", "KeyError", "ZeroDivisionError", "TypeError", "IndexError", "StopIteration", "RuntimeError", "OSError", "AssertionError", "LinAlgError"]))
    c["workers"] = draw(st.sampled_from([2, 3, -1, 5]))
    c["backend"] = draw(st.sampled_from(backends))
    if c["backend"] == "loky":
        c["workers"] = 2
    if c["where"] == "fun" and c["err"] == "StopIteration":
        c["err"] = "RuntimeError"  # Python turns StopIteration into RuntimeError inside joblib's generators (PEP 479)
    c["delay"] = draw(st.booleans())
    c["after"] = draw(st.booleans())
    return c


SUBS = [
    Sub("serial", serial, check_serial, 1600, 16000, "failure neither at the first nor at the last call"),
    Sub("each", each, check_each, 240, 2400, "every error type from objective, callback and gradient; non-trivial with several iterations"),
    Sub("threads", parallel, check_parallel, 160, 1600, "worker threads; all non-trivial"),
    Sub("processes", lambda: parallel(("loky",)), check_parallel, 8, 60, "worker processes; all non-trivial", shards=4),
]
