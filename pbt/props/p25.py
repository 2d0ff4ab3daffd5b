"""P25: results behave as one dictionary with attribute access."""
import copy
import pickle

import numpy as np

from ..core import Sub, Violation, require
from ..env import stochopy
from hypothesis import strategies as st

KEYS = ["x", "fun", "nfev", "nit", "xall", "funall", "success", "message", "status", "accept_ratio", "a", "long_field_name", "_private", "xal", "Fun", "overall", "all", "xall2", "fallback", "jac", "x0"]
CLS = {"opt": stochopy.optimize.OptimizeResult, "samp": stochopy.sample.SampleResult}


def value(v):
    k, a = v
    return np.array(a, dtype=float) if k == "arr" else tuple(a) if k == "tup" else {"k": a} if k == "dict" else a


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    return type(a) is type(b) and a == b


def same(r, model, what):
    require(list(r.keys()) == list(model) and len(r) == len(model), "%s: keys %s, expected %s", what, list(r.keys()), list(model))
    for k, v in model.items():
        require(eq(r[k], v), "%s: item %r is %r, expected %r", what, k, r[k], v)
        require(eq(getattr(r, k), v) and hasattr(r, k), "%s: attribute %r is %r, item %r", what, k, getattr(r, k), v)
        require(k in r, "%s: %r is not reported as contained", what, k)
    for k in KEYS:
        if k not in model:
            require(k not in r and not hasattr(r, k), "%s: %r should be missing", what, k)
            try:
                getattr(r, k)
            except AttributeError:
                pass
            except Exception as e:
                raise Violation(f"{what}: reading the missing attribute {k!r} raised {type(e).__name__}") from e
            else:
                raise Violation(f"{what}: missing attribute {k!r} could be read")
            require(r.get(k, 7) == 7, "%s: get of a missing key", what)
    require(sorted(dir(r)) == sorted(model), "%s: dir() lists %s, fields are %s", what, dir(r), list(model))


def printed(r, model, name):
    for s in (repr(r), str(r)):
        if not model:
            require(s == name + "()", "empty result prints as %r", s)
            continue
        lines = [ln.strip() for ln in s.splitlines()]
        for k, v in model.items():
            if k in ("xall", "funall"):
                require(not any(ln.startswith(k + ":") for ln in lines), "printed form shows the history field %s: %r", k, s)
            else:
                first = (k + ": " + repr(v)).splitlines()[0].strip()
                require(first in lines, "printed form lacks the line %r: %r", first, s)
        ends = {ln.index(k + ":") + len(k) for k in model if k not in ("xall", "funall") and "\n" not in repr(model[k]) for ln in s.splitlines() if ln.strip() == k + ": " + repr(model[k])}
        require(len(ends) <= 1, "fields are not aligned in the printed form %r", s)


def guard(what, f, *exc):
    try:
        return f(), None
    except exc as e:
        return None, e
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}") from e


def check(case):
    C = CLS[case["cls"]]
    r, model = C(**{k: value(v) for k, v in case["init"].items()}), {k: value(v) for k, v in case["init"].items()}
    same(r, model, "constructed")
    labels = {case["cls"]}
    for op, k, v in case["ops"]:
        val = value(v)
        what = f"after {op} {k!r}"
        if op == "setattr":
            guard(what, lambda: setattr(r, k, val))
            model[k] = val
        elif op == "setitem":
            guard(what, lambda: r.__setitem__(k, val))
            model[k] = val
        elif op == "update":
            guard(what, lambda: r.update({k: val, "fun": val}))
            model.update({k: val, "fun": val})
        elif op == "setdefault":
            got, _ = guard(what, lambda: r.setdefault(k, val))
            require(eq(got, model.setdefault(k, val)), "setdefault returned %r", got)
        elif op in ("delattr", "delitem"):
            f = (lambda: delattr(r, k)) if op == "delattr" else (lambda: r.__delitem__(k))
            _, e = guard(what, f, KeyError, AttributeError)
            require((e is not None) == (k not in model), "%s of %r: %s", op, k, "no error for a missing field" if e is None else "error for a present field")
            model.pop(k, None)
        elif op == "pop":
            got, _ = guard(what, lambda: r.pop(k, "none"))
            require(eq(got, model.pop(k, "none")), "pop returned %r", got)
        elif op in ("copy", "deepcopy", "pickle"):
            old = r
            f = {"copy": lambda: copy.copy(r), "deepcopy": lambda: copy.deepcopy(r), "pickle": lambda: pickle.loads(pickle.dumps(r, protocol=len(k) % 6))}[op]
            r, _ = guard(what, f)
            require(type(r) is C, "%s of a result is a %s", op, type(r).__name__)
            same(r, model, what)
            r["added_later"] = 1
            require("added_later" not in old and not hasattr(old, "added_later"), "%s shares its fields with the original", op)
            del r["added_later"]
            labels.add(op)
        elif op == "print":
            printed(r, model, C.__name__)
        elif op == "dict":
            d, _ = guard(what, lambda: dict(r))
            require(list(d) == list(model), "dict() of a result has keys %s", list(d))
            require(isinstance(r, dict), "a result is not a dict")
        same(r, model, what)
    printed(r, model, C.__name__)
    if len({o[0] for o in case["ops"]}) >= 3 and model:
        labels.add("nontrivial")
    return labels


def check_real(case):
    from ..trace import run

    t = run(case, callback=False, return_all=case["all"])
    r = t.res
    name = type(r).__name__
    require(name == ("SampleResult" if case["method"] in ("mcmc", "hmc") else "OptimizeResult"), "%s returned a %s", case["method"], name)
    model = dict(r)
    same(r, model, case["method"])
    printed(r, model, name)
    for f in (copy.copy, copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v))):
        s, _ = guard("copy", lambda: f(r))
        require(type(s) is type(r), "copy has another type")
        same(s, model, "copy")
    return [case["method"], "nontrivial"]


VAL = st.one_of(
    st.tuples(st.just("lit"), st.one_of(st.floats(allow_nan=False), st.integers(-9, 9), st.booleans(), st.none(), st.text(max_size=5), st.sampled_from(["xall", "fun: 1"]))),
    st.tuples(st.just("arr"), st.lists(st.integers(-3, 3), max_size=5)),
    st.tuples(st.just("tup"), st.lists(st.integers(-3, 3), max_size=3)),
    st.tuples(st.just("dict"), st.integers(0, 3)),
).map(list)
OPS = ["setattr", "setitem", "update", "setdefault", "delattr", "delitem", "pop", "copy", "deepcopy", "pickle", "print", "dict"]


def cases():
    return st.fixed_dictionaries(
        {
            "cls": st.sampled_from(["opt", "samp"]),
            "init": st.dictionaries(st.sampled_from(KEYS), VAL, max_size=6),
            "ops": st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(KEYS), VAL).map(list), max_size=25),
        }
    )


@st.composite
def real(draw):
    from ..cases import opt_st, samp_st

    c = draw(st.one_of(opt_st(maxiter=(1, 4)), samp_st(maxiter=(1, 8))))
    c["all"] = draw(st.booleans())
    return c


SUBS = [
    Sub("operations", cases, check, 6000, 80000, "operation sequence of three or more kinds against a plain dict, fields left at the end"),
    Sub("returned", real, check_real, 800, 8000, "results returned by real runs; all non-trivial"),
]
ASSUMPTIONS = ["field names that are also methods of dict are outside the property", "deleting a missing attribute may raise KeyError or AttributeError"]
