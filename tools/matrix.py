#!/usr/bin/env python3
"""Apply every planted bug to a scratch clone of /repo, run the quick check of its property (and the ones given in
meta.json under "also"), and write doc/catches.md. Run by hand; no check reads its output.

usage: matrix.py [id ...]   (with ids: print only)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def one(bug):
    meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
    d = tempfile.mkdtemp(prefix="matrix.")
    rows = []
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        a = subprocess.run(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")], cwd=d + "/r", capture_output=True, text=True)
        if a.returncode:
            return meta, [("-", "does not apply")]
        for pid in [meta["property"]] + meta.get("also", []):
            r = subprocess.run(["./check", pid, "quick"], cwd=HERE, env={**os.environ, "STOCHOPY_REPO": d + "/r"}, capture_output=True, text=True)
            msg = next((x.strip() for x in r.stdout.splitlines() if x.startswith("  ")), "")
            rows.append((pid, ("caught: " + msg[:110]) if r.returncode == 1 else "MISSED (exit %d)" % r.returncode))
    finally:
        shutil.rmtree(d)
    return meta, rows


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    out = ["| planted bug | needs | check | outcome |", "|---|---|---|---|"]
    for b in ids:
        meta, rows = one(b)
        for pid, what in rows:
            print(b, pid, what, flush=True)
            out.append("| %s | %s | %s | %s |" % (b, meta["needs"].replace("|", "/"), pid, what.replace("|", "/")))
    if not sys.argv[1:]:
        open(os.path.join(HERE, "doc", "catches.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
