"""Executed by every rank under mpirun: argv = cases.json outdir. Each rank writes its results to outdir/<rank>.pkl."""
import json
import os
import pickle
import sys
import traceback


def main():
    from .env import np
    from mpi4py import MPI

    from .objectives import Delayed, Obj
    from .trace import METHODS_OPT, make_x0

    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    cases = json.load(open(sys.argv[1]))
    out = []

    def dump():
        tmp = os.path.join(sys.argv[2], f".{rank}.tmp")
        with open(tmp, "wb") as f:
            pickle.dump({"size": comm.Get_size(), "out": out}, f)
        os.rename(tmp, os.path.join(sys.argv[2], f"{rank}.pkl"))

    if not cases:
        dump()
        return
    for case in cases:
        obj = Obj(case["obj"], case["bounds"])
        if case.get("delay"):
            obj = Delayed(obj, 2e-4 * (1 + rank))
        X = []

        def fun(x, *a):
            X.append(np.array(x, dtype=float))
            return obj(x, *a)

        cbs = []

        def cb(P, s):
            cbs.append((np.array(P, dtype=float), np.array(s.x, dtype=float), float(s.fun)))

        np.random.rand(rank + 1)  # ranks arrive with different histories
        try:
            res = METHODS_OPT[case["method"]](fun, case["bounds"], x0=make_x0(case), callback=cb, **case["call"])
            out.append(("ok", dict(res), X, cbs))
        except BaseException as e:
            out.append(("error", f"{type(e).__name__}: {e}", traceback.format_exc()))
            dump()
            sys.stdout.flush()
            os._exit(3)
    dump()


main()
