"""P07: worker threads, worker processes and MPI ranks give the serial deferred result."""
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import env
from ..cases import opt_st
from ..core import Sub, Violation, require
from ..objectives import Delayed, Obj
from ..trace import METHODS_OPT, make_x0, same_result

UPD = ("de", "pso", "cpso")


def call(case, fun, cb=None, **over):
    return METHODS_OPT[case["method"]](fun, case["bounds"], x0=make_x0(case), callback=cb, **{**case["opts"], "return_all": True, **over})


def reference(case):
    """Serial run in deferred mode."""
    obj = Obj(case["obj"], case["bounds"])
    X, cbs = [], []

    def fun(x, *a):
        X.append(np.array(x, dtype=float))
        return obj(x, *a)

    def cb(P, s):
        cbs.append((np.array(P, dtype=float), np.array(s.x, dtype=float), float(s.fun)))

    over = {"updating": "deferred"} if case["method"] in UPD else {}
    res = call(case, fun, cb, **over)
    return res, np.array(X), cbs


def same_cbs(a, b):
    return len(a) == len(b) and all(np.array_equal(u, v, equal_nan=True) for p, q in zip(a, b) for u, v in zip(p, q))


def compare(case, what, base, res, cbs=None):
    d = same_result(base[0], res)
    require(d is None, "%s: %s gives another result than the serial deferred run: %s", case["method"], what, d)
    if cbs is not None:
        require(same_cbs(base[2], cbs), "%s: callbacks of %s differ from the serial deferred run", case["method"], what)


def labels(case, base):
    lab = [case["method"]]
    if case["opts"].get("updating") == "immediate":
        lab.append("overrides-immediate")
    if base[0].nit > 2:
        lab.append("nontrivial")
    return lab


def check_local(case):
    base = reference(case)
    obj = Obj(case["obj"], case["bounds"])
    cbs = []

    def cb(P, s):
        cbs.append((np.array(P, dtype=float), np.array(s.x, dtype=float), float(s.fun)))

    if case["delay"]:
        obj = Delayed(obj, 5e-4)
    par = case["par"]
    try:
        res = call(case, obj, cb, **par)
    except Exception as e:
        raise Violation(f"{case['method']} with {par} raised {type(e).__name__}: {e}") from e
    compare(case, f"{par}", base, res, cbs)
    lab = labels(case, base) + [str(par.get("backend")), "workers=%s" % par["workers"]]
    if par["workers"] > 1 and case["opts"]["popsize"] % par["workers"]:
        lab.append("uneven")
    return lab


# ---- MPI -------------------------------------------------------------------------------------------------------------

RETRY = 2
WAIT = 150
_available = None


def mpirun(cases, n):
    """Outputs of the ranks, or a string describing why there is none."""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        cmd = ["mpirun", "-np", str(n), "--oversubscribe", "--bind-to", "none", sys.executable, "-m", "pbt.mpi_runner", path, d]
        p = subprocess.Popen(cmd, cwd=env.HERE, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env={**os.environ, "STOCHOPY_REPO": env.REPO})
        try:
            err = p.communicate(timeout=WAIT)[1].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGTERM)
            try:
                p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            err = "timeout"
        outs = {}
        for r in range(n):
            q = os.path.join(d, f"{r}.pkl")
            if os.path.exists(q):
                outs[r] = pickle.load(open(q, "rb"))
        return outs, p.returncode, err


def available():
    global _available
    if _available is None:
        _available = any(len(mpirun([], 2)[0]) == 2 for _ in range(2))
    return _available


def check_mpi(case):
    if not available():
        return ["mpirun-unavailable"]
    n, batch = case["np"], case["cases"]
    jobs = []
    for c in batch:
        o = {**c["opts"], "return_all": True, "backend": "mpi", "workers": c["workers"]}
        if not c["seeded"]:
            o["seed"] = None
        jobs.append({**c, "call": o})
    for attempt in range(RETRY):
        outs, rc, err = mpirun(jobs, n)
        if len(outs) == n and all(len(outs[r]["out"]) == len(jobs) for r in outs) and rc == 0:
            break
    bad = [(r, o) for r in outs for o in outs[r]["out"] if o[0] == "error"]
    require(not bad, "a rank of %s failed: %s", n, bad[:1])
    require(len(outs) == n and rc == 0, "mpirun with %d ranks did not finish (%s): %s", n, err[-300:], [c["method"] for c in batch])
    require(all(outs[r]["size"] == n for r in outs), "communicator size")
    lab = ["np=%d" % n]
    for k, c in enumerate(batch):
        first = outs[0]["out"][k]
        for r in range(1, n):
            d = same_result(first[1], outs[r]["out"][k][1])
            require(d is None, "%s under MPI (%d ranks%s): ranks 0 and %d return different results: %s", c["method"], n, "" if c["seeded"] else ", no seed", r, d)
            require(same_cbs(first[3], outs[r]["out"][k][3]), "%s under MPI (%d ranks): ranks 0 and %d give different callbacks", c["method"], n, r)
        lab.append(c["method"])
        if c["seeded"]:
            base = reference(c)
            compare(c, f"MPI on {n} ranks", base, first[1], first[3])
            lab += labels(c, base)
        else:
            lab.append("seedless")
            # the ranks' result is one that the evaluations support
            o = Obj(c["obj"], c["bounds"])
            if c["method"] not in ("cmaes", "vdcma"):
                v = float(o(first[1]["x"]))
                require(v == float(first[1]["fun"]) or not np.isfinite(v) or abs(v - float(first[1]["fun"])) <= 1e-6 * (1 + abs(v)), "%s under MPI without seed: fun %r is not the objective at x (%r)", c["method"], first[1]["fun"], v)
    return sorted(set(lab))


@st.composite
def one(draw, **k):
    c = draw(opt_st(maxiter=(1, 8), maxdim=4, maxpop=11, big=False, **k))
    if draw(st.integers(0, 9)) == 0:
        c["opts"]["popsize"] = draw(st.integers(12, 90))
        c["opts"]["maxiter"] = min(c["opts"]["maxiter"], 3)
    return c


@st.composite
def threads(draw):
    c = draw(one())
    c["par"] = {"workers": draw(st.sampled_from([2, 3, 5, 16, -1, -2])), "backend": draw(st.sampled_from([None, "threading"]))}
    c["delay"] = draw(st.booleans())
    return c


@st.composite
def single_mpi(draw):
    c = draw(one())
    c["par"] = {"workers": draw(st.sampled_from([1, 0, 2])), "backend": "mpi"}
    c["delay"] = False
    return c


@st.composite
def processes(draw):
    c = draw(one())
    c["par"] = {"workers": draw(st.sampled_from([2, 3])), "backend": "loky"}
    c["delay"] = draw(st.booleans())
    return c


@st.composite
def mpi(draw):
    cs = []
    for _ in range(draw(st.integers(1, 10))):
        c = draw(one())
        c["seeded"] = draw(st.integers(0, 3)) > 0
        c["workers"] = draw(st.sampled_from([1, 1, 2]))
        c["delay"] = draw(st.booleans())
        cs.append(c)
    return {"np": draw(st.sampled_from([2, 3, 4])), "cases": cs}


ASSUMPTIONS = [
    "MPI ranks run on one machine over shared memory (Open MPI, no network in the sandbox)",
    "where mpirun itself cannot start two ranks at all, the MPI cases are skipped and counted as mpirun-unavailable",
]

SUBS = [
    Sub("threads", threads, check_local, 500, 5000, "at least 3 generations"),
    Sub("mpi", mpi, check_mpi, 36, 500, "a seeded run of at least 3 generations in the batch", shards=4),
    Sub("single-rank", single_mpi, check_local, 400, 4000, "backend 'mpi' on one rank, at least 3 generations", shards=2),
    Sub("processes", processes, check_local, 40, 400, "at least 3 generations", shards=4),
]
