"""Objective functions described by small JSON specs: deterministic, picklable, total (any real vector)."""
import zlib

import numpy as np


class Obj:
    """spec: {"base", "c": [...], "w": [...], "post": [[op, arg], ...], "ret": kind}; c, w in units of the half box."""

    def __init__(self, spec, bounds):
        self.spec = spec
        b = np.asarray(bounds, dtype=float)
        self.m = 0.5 * b[:, 0] + 0.5 * b[:, 1]
        h = 0.5 * b[:, 1] - 0.5 * b[:, 0]
        self.h = np.where(h > 0, h, 1.0)
        n = len(b)
        self.c = np.resize(np.asarray(spec.get("c", [0.0]), dtype=float), n)
        self.w = np.resize(np.asarray(spec.get("w", [1.0]), dtype=float), n)

    def __call__(self, x, *args):
        v = self.value(x)
        for a in args:
            v = v + a if isinstance(a, (int, float)) else v
        return self.cast(v)

    def value(self, x):
        s = self.spec
        base = s["base"]
        x = np.asarray(x, dtype=float)
        with np.errstate(all="ignore"):
            if base == "const":
                v = 1.5
            elif base == "hash":
                v = zlib.crc32((x + 0.0).tobytes()) / 2.0**32
            else:
                u = (x - self.m) / self.h
                d = u - self.c
                if base == "quad":
                    v = float(np.dot(self.w, d * d))
                elif base == "lin":
                    v = float(np.dot(self.w, d))
                elif base == "l1":
                    v = float(np.dot(self.w, np.abs(d)))
                elif base == "linf":
                    v = float(np.max(self.w * np.abs(d)))
                elif base == "rot":
                    v = float(np.dot(self.w, d) ** 2 + 0.01 * np.dot(d, d))
                elif base == "rosen":
                    z = 2.0 * d + 1.0
                    v = float(100.0 * ((z[1:] - z[:-1] ** 2) ** 2).sum() + ((1.0 - z) ** 2).sum())
                elif base == "rastr":
                    z = 5.0 * d
                    v = float((z * z - 10.0 * np.cos(2.0 * np.pi * z) + 10.0).sum())
                elif base == "rough":
                    v = float(np.dot(self.w, d * d) + np.sin(40.0 * u).sum())
                else:
                    raise KeyError(base)
            for op, arg in s.get("post", []):
                if op == "mul":
                    v = v * arg
                elif op == "pow2":
                    v = v * 2.0**arg
                elif op == "add":
                    v = v + arg
                elif op == "quant":  # plateaus: many exact ties
                    v = float(np.floor(v * arg)) / arg if np.isfinite(v) else v
                elif op == "infabove":  # death penalty
                    v = float("inf") if v > arg else v
                elif op == "infhalf":
                    u0 = (x[0] - self.m[0]) / self.h[0]
                    v = float("inf") if u0 > arg else v
                elif op == "nanabove":
                    v = float("nan") if v > arg else v
                elif op == "nanhalf":
                    u0 = (x[0] - self.m[0]) / self.h[0]
                    v = float("nan") if u0 > arg else v
                elif op == "cap":
                    v = min(v, arg)
                elif op == "cube":
                    v = v * v * v
                else:
                    raise KeyError(op)
        return v

    def cast(self, v):
        ret = self.spec.get("ret", "float")
        if ret == "float":
            return float(v)
        if ret == "np":
            return np.float64(v)
        if ret == "0d":
            return np.array(float(v))
        if ret == "int":
            return int(round(v)) if np.isfinite(v) else float(v)
        if ret == "npint":
            return np.int64(round(v)) if np.isfinite(v) and abs(v) < 2**62 else float(v)
        if ret == "mixed":  # large values (the usual "infeasible" code) are Python ints, the others floats
            t = self.spec.get("t", 0.3)
            return int(round(v)) + 1 if np.isfinite(v) and v > t else float(v)
        raise KeyError(ret)


class Delayed:
    """Same objective with an input-dependent delay, to perturb evaluation schedules."""

    def __init__(self, obj, scale):
        self.obj, self.scale = obj, scale

    def __call__(self, x, *args):
        import time

        h = zlib.crc32((np.asarray(x, dtype=float) + 0.0).tobytes(), 7) / 2.0**32
        time.sleep(self.scale * h)
        return self.obj(x, *args)
