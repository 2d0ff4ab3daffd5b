"""Matching reported points with the log of objective calls."""
import numpy as np

from .core import require


class CallLog:
    def __init__(self, X, F, bounds):
        self.X, self.F = np.asarray(X, dtype=float), np.asarray(F, dtype=float)
        b = np.asarray(bounds, dtype=float)
        self.scale = np.abs(b).max(axis=1)
        self.map = {}
        for i, x in enumerate(self.X):
            self.map.setdefault((x + 0.0).tobytes(), []).append(i)

    def find(self, x, ulps=16):
        """Indices of calls at x (exactly, else within a few ulps)."""
        x = np.asarray(x, dtype=float)
        hit = self.map.get((x + 0.0).tobytes())
        if hit:
            return hit
        if x.shape != self.X.shape[1:] or not len(self.X):
            return []
        tol = ulps * np.spacing(np.maximum(self.scale, np.abs(x)))
        d = np.abs(self.X - x) <= tol
        return list(np.nonzero(d.all(axis=1))[0])

    def value_at(self, x, what):
        k = self.find(x)
        require(k, "%s %s was never passed to the objective", what, np.asarray(x).tolist())
        return self.F[k]


def close(a, b, scale, ulps=16):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= ulps * np.spacing(np.maximum(np.maximum(np.abs(a), np.abs(b)), scale)) + 0.0) or np.array_equal(a, b, equal_nan=True))
