"""P24: benchmark functions compute their published definitions."""
import math

import numpy as np

from ..core import Sub, Violation, require
from ..env import stochopy
from hypothesis import strategies as st

E = 2.7182818284590451
PI = math.pi


def ackley(x):
    n = len(x)
    s = math.sqrt(math.fsum(v * v for v in x) / n)
    c = math.fsum(math.cos(2 * PI * v) for v in x) / n
    return 20 + E - 20 * math.exp(-0.2 * s) - math.exp(c), 50.0 + sum(2 * PI * abs(v) for v in x) * 3


def griewank(x):
    s = math.fsum(v * v for v in x) / 4000
    p = 1.0
    for i, v in enumerate(x, 1):
        p *= math.cos(v / math.sqrt(i))
    return 1 + s - p, 2 + s + sum(abs(v) for v in x)


def quartic(x):
    t = [i * v**4 for i, v in enumerate(x, 1)]
    return math.fsum(t), math.fsum(t)


def rastrigin(x):
    t = [v * v - 10 * math.cos(2 * PI * v) for v in x]
    return 10 * len(x) + math.fsum(t), 20 * len(x) + math.fsum(v * v for v in x) + 63 * sum(abs(v) for v in x)


def rosenbrock(x):
    t = [100 * (b - a * a) ** 2 for a, b in zip(x, x[1:])] + [(1 - a) ** 2 for a in x[:-1]]
    m = [100 * (abs(b) + a * a) ** 2 for a, b in zip(x, x[1:])] + [(1 + abs(a)) ** 2 for a in x[:-1]]
    return math.fsum(t), math.fsum(m)


def sphere(x):
    t = math.fsum(v * v for v in x)
    return t, t


def styblinski_tang(x):
    t = [v**4 - 16 * v * v + 5 * v for v in x]
    return 0.5 * math.fsum(t) + 39.16599 * len(x), math.fsum(v**4 + 16 * v * v + 5 * abs(v) + 40 for v in x)


REF = {f.__name__: f for f in (ackley, griewank, quartic, rastrigin, rosenbrock, sphere, styblinski_tang)}
ST = -2.903534027771177  # root of 4x^3 - 32x + 5
MINI = {"ackley": 0.0, "griewank": 0.0, "quartic": 0.0, "rastrigin": 0.0, "rosenbrock": 1.0, "sphere": 0.0, "styblinski_tang": ST}
DEC = {"int": int, "float": float}


def build(case):
    v = case["x"]
    k = case["kind"]
    if k == "list":
        return list(v)
    if k == "tuple":
        return tuple(v)
    if k == "array":
        return np.array(v, dtype=float)
    if k == "strided":
        return np.repeat(np.array(v, dtype=float), 2)[::2]
    if k == "readonly":
        a = np.array(v, dtype=float)
        a.flags.writeable = False
        return a
    return np.array(v, dtype=k)  # an integer or float32 dtype


def call(name, x):
    try:
        return getattr(stochopy.factory, name)(x)
    except Exception as e:
        raise Violation(f"{name} raised {type(e).__name__}: {e} for {x!r:.200}") from e


def check(case):
    name = case["fun"]
    x = build(case)
    keep = np.array(x, copy=True)
    got = call(name, x)
    require(np.array_equal(keep, np.array(x)), "%s modified its argument", name)
    require(np.ndim(got) == 0, "%s returned shape %s", name, np.shape(got))
    xs = [float(v) for v in np.asarray(x, dtype=float)]
    want, mag = REF[name](xs)
    tol = 1e-12 * mag + 1e-300
    require(abs(float(got) - want) <= tol, "%s(%s) = %r, the formula gives %r", name, xs, float(got), want)
    low = -2e-4 * len(xs) if name == "styblinski_tang" else 0.0
    require(float(got) >= low - 1e-12 * mag, "%s(%s) = %r is below the global minimum", name, xs, float(got))
    lab = [name, case["kind"]]
    if len(xs) > 1 and len({abs(v) for v in xs}) > 1:
        lab.append("nontrivial")
    return lab


def check_minimum(case):
    name, n = case["fun"], case["n"]
    base = MINI[name]
    x = [base] * n
    v = float(call(name, x))
    low = -1.7573e-4 * n if name == "styblinski_tang" else 0.0
    require(abs(v - low) <= 1e-6 * n, "%s at its minimiser in %d dimensions is %r", name, n, v)
    y = [base + d * case["r"] for d in np.resize(case["d"], n)]
    w = float(call(name, y))
    require(w >= v - 1e-9 * n, "%s(%s) = %r is below its value at the minimiser, %r", name, y, w, v)
    return [name, "nontrivial"] if n > 1 else [name]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(REF)))
    n = draw(st.one_of(st.integers(2 if name == "rosenbrock" else 1, 6), st.integers(7, 40)))
    kind = draw(st.sampled_from(["list", "tuple", "array", "strided", "readonly", "int64", "int32", "int8", "uint8", "float32"]))
    if kind in ("int64", "int32", "int8", "uint8"):
        top = {"int64": 10**9, "int32": 2**31 - 1, "int8": 127, "uint8": 255}[kind]
        el = st.one_of(st.integers(-5, 5), st.integers(-top, top))
        if kind == "uint8":
            el = st.integers(0, 255)
    elif kind == "float32":
        el = st.integers(-4000, 4000).map(lambda k: k / 64.0)
    else:
        el = st.one_of(
            st.floats(-5.12, 5.12),
            st.integers(-6, 6),
            st.integers(-(10**6), 10**6),
            st.floats(-1e6, 1e6),
            st.sampled_from([0.5, -0.5, 1e-8, -1e-8, 1e30, -1e30, -0.0, 2**40, -(2**40)]),
        )
    return {"fun": name, "kind": kind, "x": draw(st.lists(el, min_size=n, max_size=n))}


@st.composite
def minima(draw):
    name = draw(st.sampled_from(sorted(REF)))
    return {
        "fun": name,
        "n": draw(st.integers(2 if name == "rosenbrock" else 1, 30)),
        "r": draw(st.sampled_from([1e-3, 0.1, 1.0, 3.0, 100.0])),
        "d": draw(st.lists(st.integers(-8, 8).map(lambda k: k / 8.0), min_size=1, max_size=6)),
    }


SUBS = [
    Sub("formula", cases, check, 30000, 400000, "non-trivial with at least two coordinates of different magnitude"),
    Sub("minimum", minima, check_minimum, 5000, 50000, "non-trivial in two or more dimensions"),
]
