"""Independent references of the two evolution strategies, stepped along the points a run really evaluated.

Both start from the published parameter settings (Hansen, "The CMA Evolution Strategy: A Tutorial"; Akimoto, Auger and
Hansen, "Comparison-based natural gradient optimization in high dimension", 2014; two-point step-size adaptation with
injection of symmetric samples, Hansen 2008) and use explicit matrices.
"""
import numpy as np


def parents(p, muperc):
    mu = max(1, int(muperc * p))
    w = np.array([np.log(mu + 0.5) - np.log(i) for i in range(1, mu + 1)])
    w = w / w.sum()
    return mu, w, 1.0 / float((w**2).sum())


class Close(Exception):
    """A discrete decision of the algorithm is too close to call (or precision is lost)."""


class Stream:
    """The normal draws a seeded run uses, in the order in which the published algorithm needs them."""

    def __init__(self, seed):
        self.r = np.random.RandomState(seed)

    def start(self, n):
        return self.r.uniform(-1.0, 1.0, n)

    def normals(self, *shape):
        return self.r.randn(*shape)


class Cma:
    def __init__(self, n, p, muperc, sigma, mean):
        self.n, self.p = n, p
        self.mu, self.w, self.mueff = parents(p, muperc)
        m = self.mueff
        self.cc = (4 + m / n) / (n + 4 + 2 * m / n)
        self.cs = (m + 2) / (n + m + 5)
        self.c1 = 2 / ((n + 1.3) ** 2 + m)
        self.cmu = min(1 - self.c1, 2 * (m - 2 + 1 / m) / ((n + 2) ** 2 + m))
        self.damps = 1 + 2 * max(0.0, np.sqrt((m - 1) / (n + 1)) - 1) + self.cs
        self.chin = np.sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n))
        self.mean, self.sigma, self.sigma0 = np.array(mean, dtype=float), sigma, sigma
        self.old = self.mean.copy()
        self.C = np.eye(n)
        self.decomposed = np.eye(n)  # C at the last decomposition: what is sampled from
        self.D, self.B = np.ones(n), np.eye(n)
        self.inv = np.eye(n)
        self.pc, self.ps = np.zeros(n), np.zeros(n)
        self.nfev = self.last = 0
        self.it = 0

    def prec(self):
        """Inverse of the covariance being sampled from (up to sigma)."""
        return self.inv @ self.inv

    def step(self, arx, fit):
        n, p = self.n, self.p
        order = np.argsort(fit, kind="stable")
        f = fit[order]
        if (np.diff(f[: self.mu + 1]) <= 0).any():
            raise Close
        self.it += 1
        self.nfev += p
        best = arx[order[: self.mu]]
        self.old = self.mean
        self.mean = sum(w * x for w, x in zip(self.w, best))
        dm = (self.mean - self.old) / self.sigma
        self.ps = (1 - self.cs) * self.ps + np.sqrt(self.cs * (2 - self.cs) * self.mueff) * (self.inv @ dm)
        left = np.linalg.norm(self.ps) / np.sqrt(1 - (1 - self.cs) ** (2 * self.nfev / p)) / self.chin
        right = 1.4 + 2 / (n + 1)
        if abs(left - right) < 1e-6:
            raise Close
        h = 1.0 if left < right else 0.0
        self.pc = (1 - self.cc) * self.pc + h * np.sqrt(self.cc * (2 - self.cc) * self.mueff) * dm
        Y = (best - self.old) / self.sigma
        C = (1 - self.c1 - self.cmu) * self.C
        C = C + self.c1 * (np.outer(self.pc, self.pc) + (1 - h) * self.cc * (2 - self.cc) * self.C)
        for w, y in zip(self.w, Y):
            C = C + self.cmu * w * np.outer(y, y)
        self.C = 0.5 * (C + C.T)
        self.sigma = self.sigma * np.exp((self.cs / self.damps) * (np.linalg.norm(self.ps) / self.chin - 1))
        wait = p / (self.c1 + self.cmu) / n / 10
        if abs(self.nfev - self.last - wait) < 1e-6 * wait:
            raise Close
        if self.nfev - self.last > wait:
            self.last = self.nfev
            self.decomposed = self.C.copy()
            ev, B = np.linalg.eigh(self.C)
            if not ev[0] > 1e-15 * ev[-1]:
                raise Close
            self.D, self.B = np.sqrt(ev), B
            self.inv = B @ np.diag(1 / self.D) @ B.T

    def diag(self):
        return np.diag(self.C)

    def sampling_diag(self):
        return np.diag(self.C)


class Vd:
    def __init__(self, n, p, muperc, sigma, mean, v):
        self.n, self.p = n, p
        self.mu, self.w, self.mueff = parents(p, muperc)
        m = self.mueff
        self.cc = (4 + m / n) / (n + 4 + 2 * m / n)
        fac = (n - 5) / 6
        self.c1 = fac * 2 / ((n + 1.3) ** 2 + m)
        self.cmu = min(1 - self.c1, fac * 2 * (m - 2 + 1 / m) / ((n + 2) ** 2 + m))
        self.mean, self.sigma, self.sigma0 = np.array(mean, dtype=float), sigma, sigma
        self.old = self.mean.copy()
        self.d, self.v = np.ones(n), np.array(v, dtype=float)
        self.pc, self.ps = np.zeros(n), 0.0
        self.dx = None
        self.it = 0
        self.sampled = self.cov()

    def cov(self):
        D = np.diag(self.d)
        return D @ (np.eye(self.n) + np.outer(self.v, self.v)) @ D

    def step(self, arx, fit):
        n, p = self.n, self.p
        order = np.argsort(fit, kind="stable")
        f = fit[order]
        if (np.diff(f[: self.mu + 1]) <= 0).any():
            raise Close
        rank = np.empty(p, dtype=int)
        rank[order] = np.arange(p)
        inject = self.it > 0
        self.it += 1
        self.sampled = self.cov()
        Y = (arx[order[: self.mu]] - self.mean) / self.sigma
        self.old = self.mean
        self.dx = sum(w * (x - self.mean) for w, x in zip(self.w, arx[order[: self.mu]]))
        self.mean = self.mean + self.dx
        h = 1.0
        if inject:
            if (fit == fit[0]).sum() > 1 or (fit == fit[1]).sum() > 1:
                raise Close
            a = (rank[1] - rank[0]) / (p - 1)
            self.ps = 0.7 * self.ps + 0.3 * a
            self.sigma = self.sigma * np.exp(self.ps / np.sqrt(n))
            if abs(self.ps - 0.5) < 1e-9:
                raise Close
            h = 1.0 if self.ps < 0.5 else 0.0
        self.pc = (1 - self.cc) * self.pc + h * np.sqrt(self.cc * (2 - self.cc) * self.mueff) * sum(w * y for w, y in zip(self.w, Y))
        if self.c1 + self.cmu > 0:
            self.adapt(Y, h)
        if not (self.d > 0).all():
            raise AssertionError("reference lost positivity")

    def adapt(self, Y, h):
        n, d, v = self.n, self.d, self.v
        s2 = float(v @ v)
        s = np.sqrt(s2)
        u = v / s
        uu = u * u
        g = 1 / np.sqrt(1 + s2)
        top = uu.max()
        alpha = np.sqrt(s2**2 + (1 + s2) / top * (2 - g)) / (2 + s2)
        if abs(alpha - 1) < 1e-9:
            raise Close
        if alpha < 1:
            beta = (4 - (2 - g) / top) / (1 + 2 / s2) ** 2
        else:
            alpha, beta = 1.0, 0.0
        b = 2 * alpha**2 - beta
        A = np.diag(2 - (b + 2 * alpha**2) * uu) + b * np.outer(uu, uu)
        M = np.eye(n) - np.outer(v, v) / (1 + s2)  # inverse of I + v v^T
        P, Q = np.zeros(n), np.zeros(n)
        terms = [(self.cmu * w, y / d) for w, y in zip(self.w, Y)] if self.cmu != 0 else []
        if h:
            terms.append((self.c1, self.pc / d))
        for c, y in terms:
            k = float(y @ u)
            P += c * (y * (M @ y) - 1)
            Q += c * (k * y - 0.5 * (k * k + 1 + s2) * u)
        r = P - alpha / (1 + s2) * ((2 + s2) * Q * u - s2 * float(u @ Q) * uu)
        t = np.linalg.solve(A, r)
        gv = Q / s - alpha / s * ((2 + s2) * u * t - float(t @ uu) * u)
        gd = d * t
        f = min(1.0, 0.7 * s / np.linalg.norm(gv), 0.7 * float((d / np.abs(gd)).min()))
        self.v = v + f * gv
        self.d = d + f * gd


def observed(case, t):
    """Points of every generation in standardised coordinates, and the noise in them due to rounding."""
    b = np.asarray(case["bounds"], dtype=float)
    xm, xs = 0.5 * (b[:, 1] + b[:, 0]), 0.5 * (b[:, 1] - b[:, 0])
    p, n = case["opts"]["popsize"], len(b)
    k = len(t.X) // p
    U = ((t.X[: k * p] - xm) / xs).reshape(k, p, n)
    noise = 2.0**-52 * (np.abs(U).max(axis=1) + 2 * np.abs(xm) / xs).max(axis=1)
    return U, t.F[: k * p].reshape(k, p), noise


def start_mean(case, x0, stream):
    b = np.asarray(case["bounds"], dtype=float)
    n = len(b)
    if x0 is None:
        return stream.start(n)
    return (np.asarray(x0, dtype=float) - 0.5 * (b[:, 1] + b[:, 0])) / (0.5 * (b[:, 1] - b[:, 0]))
