"""P22: HMC integrates reversible leap-frog dynamics and accepts by energy."""
import numpy as np

from ..cases import bounds_st, own_seed, x0_vec_st
from ..core import Sub, require
from ..objectives import Obj
from ..trace import Grad, make_step, run
from hypothesis import strategies as st
from .p21 import accept_stats, accept_test, add, check_flat, corr_test, flat, link_stats, link_test, normal_stats, normal_test


class Log:
    """Objective and gradient sharing one ordered log."""

    def __init__(self, obj, jac):
        self.obj, self.g, self.ev = obj, Grad(obj) if jac else None, []

    def f(self, x, *a):
        v = self.obj(x, *a)
        self.ev.append(("f", np.array(x, dtype=float), float(v), a))
        return v

    def jac(self, x, *a):
        v = self.g(x, *a)
        self.ev.append(("g", np.array(x, dtype=float), np.array(v), a))
        return v


def stencil(calls, h, tol):
    """(midpoint, gradient) if the 2n objective calls are the points q +- h e_i, else None."""
    n = len(calls[0][1])
    P = np.array([c[1] for c in calls])
    v = np.array([c[2] for c in calls])
    q = np.median(P, axis=0) if n > 1 else P.mean(axis=0)
    D = P - q
    g = np.full(n, np.nan)
    for i in range(n):
        e = np.zeros(n)
        e[i] = h
        a = np.nonzero((np.abs(D - e) <= tol).all(axis=1))[0]
        b = np.nonzero((np.abs(D + e) <= tol).all(axis=1))[0]
        if len(a) != 1 or len(b) != 1:
            return None
        g[i] = (v[a[0]] - v[b[0]]) / (2 * h)
    return q, g


def check(case):
    o, b = case["opts"], np.asarray(case["bounds"], dtype=float)
    n, L, reject = len(b), o["nleap"], o.get("constraints") == "Reject"
    jac = bool(case.get("jac"))
    log = Log(Obj(case["obj"], case["bounds"]), jac)
    marks = []
    t = run(case, fun=log.f, jac=log.jac if jac else None, callback=lambda X, s: marks.append(len(log.ev)), return_all=True, record=False)
    for e in log.ev:
        require(e[3] == tuple(o.get("args", ())), "hmc: %s called with extra arguments %s", "gradient" if e[0] == "g" else "objective", e[3])
    xs, fs = np.asarray(t.res.xall), np.asarray(t.res.funall)
    eps = np.broadcast_to(np.asarray(make_step(case), dtype=float), (n,)) * 0.5 * (b[:, 1] - b[:, 0])
    pool, lab = {}, {"jac" if jac else "fd", "Reject" if reject else "free", "nleap=%d" % min(L, 4)}
    kept = {}
    prev, memory = None, []
    up = down = 0
    for i in range(1, len(xs)):
        ev = log.ev[marks[i - 1] : marks[i]]
        cur = xs[i - 1]
        scale = np.maximum(np.abs(b).max(axis=1), np.abs(cur))
        Q, plain = [], []
        if jac:
            Q = [(e[1], e[2]) for e in ev if e[0] == "g"]
            plain = [e for e in ev if e[0] == "f"]
        else:
            h = o["finite_diff_abs_step"]
            k = 0
            while k < len(ev):
                big = np.maximum(scale, np.abs([e[1] for e in ev[k : k + 2 * n]]).max(axis=0))
                s = stencil(ev[k : k + 2 * n], h, 1e3 * np.spacing(big) * L + 1e-9 * h) if k + 2 * n <= len(ev) else None
                if s:
                    Q.append(s)
                    k += 2 * n
                else:
                    plain.append(ev[k])
                    k += 1
        if ev and max(float((np.abs(e[1] - cur) / (b[:, 1] - b[:, 0])).max()) for e in ev) > 1e3:
            lab.add("unstable")
            prev = None
            continue
        if not all(np.isfinite(q).all() and np.isfinite(g).all() for q, g in Q) or not all(np.isfinite(e[2]) for e in plain):
            require(np.array_equal(xs[i], cur) or np.isfinite(fs[i]), "hmc: step %d: non-finite state accepted", i)
            lab.add("overflow")
            prev = None
            continue
        big = np.maximum(scale, np.abs([q for q, g in Q]).max(axis=0)) if Q else scale
        tol = 1e-11 * big + 1e3 * np.spacing(big)
        # positions visited, repeated evaluations at one position merged
        pos = []
        for q, g in Q:
            if not pos or (np.abs(q - pos[-1][0]) > tol).any():
                pos.append((q, g))
        if pos and (np.abs(pos[0][0] - cur) > tol).any() and cur.tobytes() in kept:
            pos.insert(0, (cur, kept[cur.tobytes()]))
        require(pos and (np.abs(pos[0][0] - cur) <= tol).all(), "hmc: step %d: the gradient is not evaluated at the current sample %s first", i, cur.tolist())
        require(len(pos) == L + 1, "hmc: step %d: the trajectory has %d steps (positions %s), %d requested", i, len(pos) - 1, [q.tolist() for q, g in pos], L)
        kept[pos[-1][0].tobytes()] = pos[-1][1]
        q = np.array([a for a, _ in pos])
        g = np.array([c for _, c in pos])
        q[0] = cur
        for k in range(1, L):
            want = 2 * q[k] - q[k - 1] - eps * eps * g[k]
            mag = big + eps * eps * np.abs(g[k])
            require((np.abs(q[k + 1] - want) <= 1e-9 * mag).all(), "hmc: step %d: leap-frog position %d is %s, the recurrence gives %s", i, k + 1, q[k + 1].tolist(), want.tolist())
        end = q[-1]
        ends = [e for e in plain if (np.abs(e[1] - end) <= tol).all()]
        if ends:
            end = ends[-1][1]
        p0 = (q[1] - q[0]) / eps + 0.5 * eps * g[0]
        p1 = (q[L] - q[L - 1]) / eps - 0.5 * eps * g[L]
        noise = float((tol / eps).max()) * (1 + np.abs(p0).max() + np.abs(p1).max()) + 1e-9 * (p0 @ p0 + p1 @ p1)
        steady = np.abs(0.5 * eps * g[0]).max() < 1e6
        if noise < 1e-3 and steady:
            require(np.abs(p0).max() < 9, "hmc: step %d: momentum %s", i, p0.tolist())
            normal_stats(pool, "p", p0)
            if prev is not None:
                add(pool, "serial", [float(p0[0] * prev), 1.0])
            prev = float(p0[0])
            add(pool, "pair", [float((p0[1:] * p0[:-1]).sum()), n - 1.0])
            if n > 1:
                add(pool, "ends", [float(p0[0] * p0[-1]), 1.0])
            normal_stats(pool, "p first", p0[:1])
            normal_stats(pool, "p last", p0[-1:])
        else:
            prev = None
            lab.add("noisy")
        moved = not np.array_equal(xs[i], cur)
        require(not moved or (np.abs(xs[i] - end) <= tol).all(), "hmc: sample %d is neither the end of the trajectory nor the previous sample", i)
        inside = ((end >= b[:, 0]) & (end <= b[:, 1])).all()
        if reject:
            edge = ((np.abs(end - b[:, 0]) <= tol) | (np.abs(end - b[:, 1]) <= tol)).any()
            if edge and not ends:
                continue
            if not inside:
                require(not moved, "hmc: infeasible proposal %s accepted", end.tolist())
                lab.add("infeasible proposals")
                continue
        require(ends, "hmc: step %d: the objective was not evaluated at the end of the trajectory %s", i, end.tolist())
        if noise > 1e-3:
            continue
        rise = float(ends[-1][2] - fs[i - 1] + 0.5 * (p1 @ p1) - 0.5 * (p0 @ p0))
        slack = 4 * noise + 1e-9 * (abs(fs[i - 1]) + abs(ends[-1][2]) + p0 @ p0 + p1 @ p1)
        if rise < -slack:
            require(moved, "hmc: step %d: energy falls by %r but the proposal was rejected", i, -rise)
            down += 1
        elif rise > slack:
            require(rise < 50 or not moved, "hmc: step %d: an energy rise of %r was accepted", i, rise)
            if slack < 1e-3:
                accept_stats(pool, "accept", rise, moved)
                link_stats(pool, memory, rise, moved, float(p0[0]))
            up += moved
    if up and down:
        lab.add("nontrivial")
    return {"labels": lab, "stats": pool}


def finalize(pool, tier):
    for k in ("p", "p first", "p last"):
        v = pool.get(k)
        for name, z in normal_test(v) if v else ():
            yield k, f"momenta over {v[0]:.0f} coordinates ({k}): {name} is {z:.1f} standard deviations off a standard normal"
    for k in ("serial", "pair", "ends"):
        yield from corr_test(pool, k)
    yield from link_test(pool)
    yield from accept_test(pool, "accept")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    size = draw(st.integers(0, 11))
    if size == 0:
        n = draw(st.sampled_from([7, 8, 11, 16]))
    b = draw(bounds_st(n))
    o = {"maxiter": draw(st.integers(2, 30)), "nleap": draw(st.integers(1, 7)), "seed": 0}
    if size == 1:
        o["nleap"] = draw(st.integers(8, 45))
    elif size == 2:
        o["maxiter"] = draw(st.integers(31, 200))
    if draw(st.booleans()):
        o["constraints"] = "Reject"
    kind = draw(st.sampled_from(["scalar", "list", "array", "tuple"]))
    val = st.sampled_from([0.02, 0.1, 0.3, 0.5])
    step = {"kind": kind, "v": draw(val) if kind == "scalar" else [draw(val) for _ in range(n)]}
    base = draw(st.sampled_from(["quad", "quad", "lin", "rot", "const", "rastr"]))
    obj = {"base": base, "c": [draw(st.integers(-24, 24)) / 16.0], "w": [1.0, draw(st.sampled_from([1.0, -1.0 if base == "lin" else 0.5]))], "post": [["mul", draw(st.sampled_from([1.0, 3.0, 10.0]))]]}
    if base == "rastr":
        obj["post"] = [["mul", draw(st.sampled_from([0.1, 0.02, 1.0]))]]
    c = {"method": "hmc", "bounds": b, "opts": o, "step": step, "obj": obj, "jac": draw(st.booleans()) or max(abs(v) for r in b for v in r) > 1e6}
    if not c["jac"]:
        o["finite_diff_abs_step"] = draw(st.sampled_from([1e-4, 1e-3, 1e-2]))
    if draw(st.integers(0, 3)) == 0:
        o["args"] = [0.5] if draw(st.booleans()) else [1.0, -2.0]
    if draw(st.booleans()):
        c["x0"] = draw(x0_vec_st())
    return own_seed(c, draw(st.integers(0, 2**24 - 1)))


SUBS = [
    Sub("trajectories", cases, check, 4000, 40000, "every trajectory rebuilt from the logged gradient (or difference) positions; non-trivial when both a rise and a fall of energy were accepted"),
    Sub("flat", lambda: flat("hmc"), check_flat, 300, 4000, "constant objective, tiny steps from the centre, some coordinates with equal bounds: every proposal is taken; non-trivial with free and fixed coordinates and more than one step"),
]
ASSUMPTIONS = ["trajectories that leave the box by a thousand widths (unstable integration) or overflow are not rebuilt", "pooled statistics are accepted within 7 standard deviations (fourth moment 14)"]
