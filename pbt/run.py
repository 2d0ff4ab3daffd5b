"""Run one property's check: shard generated cases over processes, merge, write evidence, report."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback

from . import env  # noqa: F401
from .core import KnownFinding, Runaway, Violation, canon

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.errors import Flaky

SHRINK_SECONDS = 40
SHARD_GRACE = 60

try:
    import hypothesis.internal.conjecture.engine as _eng

    _eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
except Exception:  # pragma: no cover
    pass


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def known_findings(pid):
    out = {}
    path = os.path.join(env.HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line + " ":
                fields = dict(f.split("=", 1) for f in line.split() if "=" in f and f.split("=")[0] in ("property", "id"))
                what = line.split(" ", 3)[3]
                out[fields["id"]] = what
    return out


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.pool = {}
        self.known = {}

    def merge(self, o):
        self.evaluations += o.evaluations
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.nontrivial |= o.nontrivial
        self.samples += o.samples
        for k, v in o.pool.items():
            self.pool[k] = [a + b for a, b in zip(self.pool[k], v)] if k in self.pool else list(v)
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v


def through_library(e):
    lib = os.path.join(env.REPO, "stochopy") + os.sep
    return any(f.filename.startswith(lib) for f in traceback.extract_tb(e.__traceback__))


def apply_check(sub, case, st, known):
    """Run one case; returns None, or raises Violation."""
    try:
        out = sub.check(case)
    except KnownFinding as e:
        if e.fid not in known:
            raise Violation(f"unlisted finding {e}") from e
        st.known[e.fid] = st.known.get(e.fid, 0) + 1
        return
    except Runaway as e:
        raise Violation(f"runaway: {e}") from None
    except Exception as e:
        # a crash inside the library on an admissible case, or something returned that has not the documented form
        if isinstance(e, Violation):
            raise
        if through_library(e):
            raise Violation(f"the library raised {type(e).__name__}: {e}") from e
        if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"what the library returned has not the documented form ({type(e).__name__}: {e}, met at {os.path.basename(where.filename)}:{where.lineno})") from e
        raise
    labels = out or ()
    stats = {}
    if isinstance(out, dict):
        labels, stats = out.get("labels", ()), out.get("stats", {})
    for la in labels:
        st.labels[la] = st.labels.get(la, 0) + 1
    for k, v in stats.items():
        st.pool[k] = [a + b for a, b in zip(st.pool[k], v)] if k in st.pool else list(v)
    if "nontrivial" in labels:
        h = hashlib.blake2b((sub.name + canon(case)).encode(), digest_size=8).digest()
        if h not in st.nontrivial:
            st.nontrivial.add(h)
            if len(st.samples) < 1:
                st.samples.append({"sub": sub.name, "case": case})


def run_shard(pid, subname, shard, count, seed):
    """Executed in a fresh forked process."""
    mod = load(pid)
    sub = next(s for s in mod.SUBS if s.name == subname)
    known = known_findings(pid)
    st = Stats()
    last = {}

    @hypothesis.seed(int(hashlib.sha256(f"{seed}/{pid}/{subname}/{shard}".encode()).hexdigest()[:12], 16))
    @settings(
        max_examples=count,
        deadline=None,
        database=None,
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )
    @given(sub.strategy())
    def prop(case):
        st.evaluations += 1
        try:
            apply_check(sub, case, st, known)
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            raise

    try:
        prop()
    except Violation:
        pass
    except Flaky:
        if "case" not in last:
            raise
        last["msg"] += "  [result differs between identical runs]"
    except BaseException as e:
        if last and isinstance(e, BaseExceptionGroup) and "case" in last:
            pass
        else:
            return ("error", subname, shard, traceback.format_exc())
    if last:
        return ("violation", subname, shard, last["case"], last["msg"], st)
    return ("ok", subname, shard, st)


def own_scratch():
    """A temporary directory of this process alone: MPI start-up in processes that share one can collide."""
    base = os.environ.get("PBT_SCRATCH")
    if base:
        d = os.path.join(base, str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        os.environ["TMPDIR"] = os.environ["JOBLIB_TEMP_FOLDER"] = tempfile.tempdir = d


def _child(task, conn):
    os.setpgid(0, 0)
    try:
        own_scratch()
        conn.send(run_shard(*task))
    except BaseException:
        conn.send(("error", task[1], task[2], traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, nproc):
    """Run every task in its own process; after a violation, let running shards go on for a little while only."""
    ctx = mp.get_context("fork")
    todo, running, results, died = list(tasks), {}, [], set()
    stop_at = None
    while todo or running:
        while todo and len(running) < nproc and stop_at is None:
            t = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, w))
            p.start()
            w.close()
            running[r] = (p, t)
        ready = mp.connection.wait(list(running), timeout=1.0)
        for r in ready:
            p, t = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                res = None
            p.join()
            _killpg(p.pid)
            if res is None:
                if t not in died and stop_at is None:  # a process that dies once may be the machine's doing
                    died.add(t)
                    todo.append(t)
                    continue
                res = ("error", t[1], t[2], f"shard process died (exit code {p.exitcode})")
            results.append(res)
            if res[0] == "violation" and stop_at is None:
                stop_at = time.time() + SHARD_GRACE
                todo = []
        if stop_at and time.time() > stop_at:
            for r, (p, t) in running.items():
                _killpg(p.pid)
                p.kill()
                p.join()
            break
    return results


def _killpg(pid):
    """End what a shard left behind: its own process group and the semaphores of its worker pool."""
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    for f in glob.glob(f"/dev/shm/sem.loky-{pid}-*"):
        try:
            os.unlink(f)
        except OSError:
            pass


def save_replay(pid, sub, case, msg, extra=None):
    d = os.path.join(env.HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "sub": sub, "case": case, "message": msg, **(extra or {})}
    h = hashlib.blake2b(canon([sub, case]).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{pid}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(pid, path):
    body = json.load(open(path))
    mod = load(pid)
    if body["sub"] == "pooled":
        return run(pid, body.get("tier", "quick"), body["seed"])
    sub = next(s for s in mod.SUBS if s.name == body["sub"])
    try:
        apply_check(sub, body["case"], Stats(), known_findings(pid))
    except Violation as e:
        print(f"{pid}/{sub.name}: {e}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replayed case passes")
    return 0


def regress_cases(pid):
    path = os.path.join(env.HERE, "regress", pid + ".jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                yield json.loads(line)


def run_regress(pid, mod, known):
    """Saved minimal cases, replayed before the search. In a child process like every other task."""
    st = Stats()
    for body in regress_cases(pid):
        sub = next((s for s in mod.SUBS if s.name == body["sub"]), None)
        if sub is None:
            continue
        st.evaluations += 1
        try:
            apply_check(sub, body["case"], st, known)
        except Violation as e:
            return ("violation", sub.name, -1, body["case"], str(e), st)
    return ("ok", "regress", -1, st)


def run(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    known = known_findings(pid)
    nproc = int(os.environ.get("PBT_PROCS", "8"))
    tasks = []
    scale = float(os.environ.get("PBT_SCALE", "1"))
    for sub in mod.SUBS:
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * scale))
        sh = max(1, min(sub.shards, n))
        for k in range(sh):
            c = n // sh + (1 if k < n % sh else 0)
            tasks.append((pid, sub.name, k, c, seed))
    # interleave sub-checks so that all shards of the slow ones do not end up last
    tasks.sort(key=lambda t: (t[2], [s.name for s in mod.SUBS].index(t[1])))

    total = Stats()
    per_sub = {}
    violations, errors = [], []

    # regression tier and known findings, in a child
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def pre():
        os.setpgid(0, 0)
        try:
            own_scratch()
            res = run_regress(pid, mod, known)
            finds = {}
            for fid, fn in getattr(mod, "FINDINGS", {}).items():
                finds[fid] = fn()
            w.send((res, finds))
        except BaseException:
            w.send((("error", "regress", -1, traceback.format_exc()), {}))
        os._exit(0)

    p = ctx.Process(target=pre)
    p.start()
    w.close()
    try:
        res, finds = r.recv()
    except EOFError:
        res, finds = ("error", "regress", -1, "process died"), {}
    p.join()
    _killpg(p.pid)
    results = [res]
    for fid, what in known.items():
        if finds.get(fid):
            print(f"KNOWN-FINDING: property={pid} {what}")
        else:
            print(f"note: listed finding {fid} of {pid} no longer fails")
    if res[0] == "ok":
        results += run_tasks(tasks, nproc)
    for res in results:
        if res[0] == "error":
            errors.append(f"{res[1]}[{res[2]}]\n{res[3]}")
            continue
        st = res[-1]
        total.merge(st)
        ps = per_sub.setdefault(res[1], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "_nt": set()})
        ps["evaluations"] += st.evaluations
        ps["_nt"] |= st.nontrivial
        for k, v in st.labels.items():
            ps["labels"][k] = ps["labels"].get(k, 0) + v
        if res[0] == "violation":
            violations.append((res[1], res[3], res[4]))
    if not violations and not errors and hasattr(mod, "finalize"):
        for name, msg in mod.finalize(total.pool, tier):
            violations.append(("pooled", {"statistic": name}, msg))

    paths = []
    seen = set()
    for sub, case, msg in violations:
        if sub in seen:
            continue
        seen.add(sub)
        paths.append((sub, msg, save_replay(pid, sub, case, msg, {"seed": seed, "tier": tier})))

    for ps in per_sub.values():
        ps["distinct_nontrivial"] = len(ps.pop("_nt"))
        ps["labels"] = dict(sorted(ps["labels"].items()))
    rules = "; ".join(f"{s.name}: {s.rule}" for s in mod.SUBS)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": rules,
            "samples": total.samples[:6],
            "per_subcheck": per_sub,
            "pooled_statistics": {k: v for k, v in sorted(total.pool.items())},
            "known_finding_cases": total.known,
            "regression_cases": sum(1 for _ in regress_cases(pid)),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(paths),
    }
    os.makedirs(os.path.join(env.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(env.HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{pid} {tier} seed={seed}: {total.evaluations} cases, {len(total.nontrivial)} distinct non-trivial, {ev['wall_s']} s")
    for sub, msg, path in paths:
        print(f"  {sub}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
    for e in errors:
        print("CHECK ERROR " + e, file=sys.stderr)
    if paths:
        return 1
    return 2 if errors else 0


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(replay(pid, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.stdout.flush()
    rc = run(pid, tier, seed)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
