"""Strategies for JSON-able cases: bounds, objectives, initial guesses, optimizer and sampler configurations."""
import math
import zlib

from hypothesis import strategies as st

POP = ("de", "pso", "cpso", "na")
CMAS = ("cmaes", "vdcma")
OPTS = POP + CMAS
SAMPLERS = ("mcmc", "hmc")
STRATS = {"rand1bin": 4, "rand2bin": 6, "best1bin": 3, "best2bin": 5}  # smallest population with enough donors


def frac(lo, hi, den=64):
    """Fractions with small shrunk forms, ends over-weighted."""
    return st.one_of(st.sampled_from([lo, hi]), st.integers(0, den).map(lambda k: lo + (hi - lo) * k / den))


@st.composite
def bounds_st(draw, ndim, fixed=False, symmetric=False):
    style = draw(st.sampled_from(["unit", "box", "free", "far", "int", "sym"])) if not symmetric else "sym"
    out = []
    if style == "unit":
        out = [[0.0, 1.0]] * ndim
    elif style == "box":
        out = [[-5.12, 5.12]] * ndim
    else:
        e = draw(st.integers(-3, 3))
        if draw(st.integers(0, 9)) == 0:
            e = draw(st.sampled_from([-10, -7, 7, 10]))
        for _ in range(ndim):
            w = draw(st.integers(1, 400)) / 7.0 * 10.0**e
            if style == "sym":
                out.append([-w, w])
            elif style == "int":
                a = draw(st.integers(-50, 50))
                out.append([a, a + draw(st.integers(1, 60))])
            else:
                k = 300 if style == "free" else 3000
                a = draw(st.integers(-k, k)) / 3.0 * 10.0**e
                out.append([a, a + w])
    out = [list(b) for b in out]
    if fixed and draw(st.integers(0, 3)) == 0:
        for i in range(ndim):
            if draw(st.booleans()):
                out[i][1] = out[i][0]
    return out


SMOOTH = ["quad", "lin", "l1", "rot", "rosen", "rastr"]
ALL = SMOOTH + ["linf", "rough", "hash", "const"]


@st.composite
def obj_st(draw, bases=None, edge=False, post=True, rets=None, inf=False, huge=False, quant=True):
    base = draw(st.sampled_from(bases or (ALL + ["quad", "lin"])))
    spec = {"base": base}
    if base not in ("const", "hash"):
        lim = 40 if edge else 16
        # |c| > 16/16 puts the optimum outside the box
        spec["c"] = [draw(st.integers(-lim, lim)) / 16.0 for _ in range(draw(st.integers(1, 3)))]
        if base in ("lin", "rot"):
            spec["w"] = [draw(st.sampled_from([1.0, -1.0, 0.5, -3.0])) for _ in range(draw(st.integers(1, 3)))]
        elif base != "rosen":
            spec["w"] = [draw(st.sampled_from([1.0, 0.1, 30.0])) for _ in range(draw(st.integers(1, 2)))]
    ops = []
    if post:
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append(["mul", 10.0 ** draw(st.integers(-6, 6))])
        elif k == 1:
            ops.append(["add", draw(st.sampled_from([-1.0, -1000.0, 10.0, 1e6]))])
        elif k == 2 and quant:
            ops.append(["quant", draw(st.sampled_from([1.0, 4.0]))])
        elif k == 3 and huge:
            ops.append(["add", 1.0])
            ops.append(["mul", draw(st.sampled_from([1e30, 1e33, 1e100, -1e32]))])
        elif k == 4 and inf:
            ops.append(["infhalf", draw(st.sampled_from([0.5, 0.0, -0.5]))])
        elif k == 5 and inf:
            ops.append(["infabove", draw(st.sampled_from([2.0, 0.5]))])
    if ops:
        spec["post"] = ops
    r = draw(st.sampled_from(rets or ["float", "float", "np", "0d", "int", "npint", "mixed"]))
    if r != "float":
        spec["ret"] = r
        if r in ("int", "npint") and not ops:
            spec["post"] = [["mul", draw(st.sampled_from([1.0, 20.0]))]]
        if r in ("int", "npint", "mixed") and ops and ops[0][0] in ("mul",) and abs(ops[0][1]) > 1e15:
            del spec["ret"]
        if r in ("int", "npint", "mixed") and len(ops) > 1:
            spec.pop("ret", None)
    return spec


def x0_pop_st():
    """Initial population: fractions of the box from a seeded grid, in some container."""
    return st.fixed_dictionaries(
        {
            "seed": st.integers(0, 999),
            "grid": st.sampled_from([1000, 7, 2, 1]),
            "kind": st.sampled_from(["array", "list", "tuple", "F", "int", "strided"]),
        }
    )


def x0_vec_st():
    return st.fixed_dictionaries(
        {
            "seed": st.integers(0, 999),
            "grid": st.sampled_from([1000, 7, 2, 1]),
            "kind": st.sampled_from(["array", "list", "tuple", "int", "strided"]),
        }
    )


def own_seed(c, salt):
    """Give the case a seed that is a hash of itself: generated integers are too clustered for pooled statistics."""
    c["opts"]["seed"] = zlib.crc32(repr((c, salt)).encode())
    return c


TOLS = st.sampled_from([1e-8, 0.0, 1e-3, 0.1, 10.0])


@st.composite
def opt_st(
    draw,
    methods=OPTS,
    constraints="any",  # any | on | off
    maxdim=6,
    mindim=1,
    maxpop=14,
    maxiter=(2, 25),
    tol="any",  # any | never
    x0="any",  # any | none | always
    objs=None,
    edge=None,
    fixed=False,
    symmetric=False,
    updating=("immediate", "deferred"),
    opts=None,
    finite=False,
    rets=None,
    huge=True,
    quant=True,
    big=True,
):
    m = draw(st.sampled_from(list(methods)))
    con = None
    if m != "na":
        name = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}[m]
        if constraints == "on":
            con = name
        elif constraints == "any":
            con = draw(st.sampled_from([None, name]))
    n = draw(st.integers(mindim, maxdim))
    if big and draw(st.integers(0, 11)) == 0:
        n = draw(st.sampled_from([max(8, mindim), 10, 13, 25]))
    b = draw(bounds_st(n, fixed=fixed, symmetric=symmetric))
    o = {"maxiter": draw(st.integers(*maxiter)), "seed": draw(st.integers(0, 2**31))}
    pmin = 2
    if m == "de":
        s = draw(st.sampled_from(sorted(STRATS)))
        o["strategy"] = s
        pmin = STRATS[s]
        o["mutation"] = draw(frac(0.0, 2.0))
        o["recombination"] = draw(frac(0.0, 1.0))
    elif m in ("pso", "cpso"):
        o["inertia"] = draw(frac(0.0, 1.0))
        o["cognitivity"] = draw(frac(0.0, 4.0))
        o["sociability"] = draw(frac(0.0, 4.0))
        if con is None:
            # unconstrained swarms with unstable coefficients grow geometrically: stop before they overflow
            o["maxiter"] = min(o["maxiter"], 60)
        if m == "cpso":
            o["competitivity"] = draw(st.one_of(st.none(), frac(0.0, 2.0)))
    elif m == "na":
        o["nrperc"] = draw(frac(0.0, 1.0).map(lambda v: max(v, 0.01)))
    else:
        o["sigma"] = draw(st.sampled_from([0.1, 0.01, 0.5, 1.0, 2.0]))
        o["muperc"] = draw(frac(0.0, 1.0).map(lambda v: max(v, 0.05)))
    top = maxpop
    if big and draw(st.integers(0, 11)) == 0:
        top = 3 * maxpop
    if big and draw(st.integers(0, 39)) == 0:
        o["popsize"] = draw(st.integers(30, 130))
    else:
        o["popsize"] = draw(st.integers(pmin, max(pmin, top)))
    if m == "na":  # its cost grows with the square of the number of models
        o["maxiter"] = min(o["maxiter"], max(10, int((6e7 / n) ** 0.5 / o["popsize"])))
    if con:
        o["constraints"] = con
    if m in ("de", "pso", "cpso"):
        u = draw(st.sampled_from(list(updating)))
        o["updating"] = u
    if tol == "never":
        o["ftol"] = -math.inf
        o["xtol"] = draw(st.sampled_from([1e-8, 0.0]))
    else:
        o["ftol"] = draw(TOLS)
        o["xtol"] = draw(TOLS)
    case = {"method": m, "bounds": b, "opts": o}
    want = x0 == "always" or (x0 == "any" and draw(st.integers(0, 2)) == 0)
    if want:
        case["x0"] = draw(x0_vec_st() if m in CMAS else x0_pop_st())
    pen = con == "Penalize"
    case["obj"] = draw(
        objs
        if objs is not None
        else obj_st(
            edge=(con is not None) if edge is None else edge,
            inf=not finite,
            huge=huge and not pen and m not in CMAS,
            rets=rets,
            quant=quant,
        )
    )
    if opts is not None:
        case["opts"].update(draw(opts))
    return case


@st.composite
def samp_st(draw, methods=SAMPLERS, constraints="any", mindim=1, maxdim=5, maxiter=(1, 60), x0="any", objs=None, edge=True, symmetric=False, jac="any", fixed=False, big=True):
    m = draw(st.sampled_from(list(methods)))
    n = draw(st.integers(mindim, maxdim))
    size = draw(st.integers(0, 19)) if big else 9
    if size == 0:
        n = draw(st.sampled_from([7, 8, 11, 17]))
    b = draw(bounds_st(n, symmetric=symmetric, fixed=fixed))
    o = {"maxiter": draw(st.integers(*maxiter)), "seed": draw(st.integers(0, 2**31))}
    if size == 1:
        o["maxiter"] = draw(st.integers(4, 20)) * maxiter[1]
    con = constraints == "on" or (constraints == "any" and draw(st.booleans()))
    if con:
        o["constraints"] = "Reject"
    scal = st.sampled_from([0.1, 0.01, 0.5, 1.0, 1])
    k = draw(st.sampled_from(["scalar", "list", "array", "tuple"]))
    case = {"method": m, "bounds": b, "opts": o}
    case["step"] = {"kind": k, "v": draw(scal) if k == "scalar" else [float(draw(scal)) for _ in range(n)]}
    if m == "mcmc":
        o["perc"] = draw(frac(0.0, 1.0, 12))
    else:
        o["nleap"] = draw(st.integers(1, 6))
        if size == 2:
            o["nleap"] = draw(st.one_of(st.integers(7, 40), st.integers(41, 200)))
            if o["nleap"] > 40:
                o["maxiter"] = min(o["maxiter"], 8)
        sc = draw(st.sampled_from([0.05, 0.3, 1.0]))
        case["step"]["v"] = case["step"]["v"] * sc if k == "scalar" else [v * sc for v in case["step"]["v"]]
        case["jac"] = draw(st.booleans()) if jac == "any" else jac
        if not case["jac"]:
            o["finite_diff_abs_step"] = draw(st.sampled_from([1e-4, 1e-3, 1e-2]))
    if x0 == "always" or (x0 == "any" and draw(st.booleans())):
        case["x0"] = draw(x0_vec_st())
    case["obj"] = draw(objs if objs is not None else obj_st(bases=["quad", "quad", "lin", "rastr", "const", "rot"], edge=edge, rets=["float", "np", "0d"], quant=False))
    return case
