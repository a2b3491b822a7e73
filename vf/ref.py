"""Reference models of a marginal distribution, written from the documentation and independent of the code under test.

Smoothed: the weighted empirical distribution, blurred by a Gaussian of `smooth` bins, reflected at the ends of the range.
Kernel:   weighted Gaussian kernel density with a bandwidth proportional to the kde setting.
Grid:     piecewise linear density through the weights summed on each grid value.
"""

from __future__ import annotations

import numpy as np
from scipy.special import ndtr


def extent(x: np.ndarray, w: np.ndarray) -> tuple[float, float]:
    """Range of the data that carries all but a negligible part of the mass (about 1e-5 on each side)."""
    h, e = np.histogram(x, weights=w, bins=2000)
    c = 0.5 * (e[1:] + e[:-1])
    tot = h.sum()
    low = np.cumsum(h[1:]) / max(tot - h[0], 1e-300)
    i1 = 1 + int(np.argmax(low > 1e-5)) if tot > h[0] else 0
    high = np.cumsum(h[::-1]) / tot
    i2 = len(h) - 1 - int(np.argmax(high > 1e-5))
    return float(c[i1]), float(c[i2])


def lost(x: np.ndarray, w: np.ndarray) -> float:
    """Mass that the range of `extent` may leave out."""
    lo, hi = extent(x, w)
    return float(w[(x < lo) | (x > hi)].sum() / w.sum())


class Smoothed:
    def __init__(self, x, w, bins: int, smooth: int, pad: bool, power: float = 1.0):
        lo, hi = extent(x, w)
        if pad:
            r = hi - lo
            lo, hi = lo - 0.2 * r, hi + 0.2 * r
        self.lo, self.hi, self.r = lo, hi, hi - lo
        n = 2 * smooth * bins if smooth else bins
        self.h = (hi - lo) / (n - 1)
        self.sigma = np.hypot(smooth, 0.41) * self.h  # the bin and the interpolation blur too
        inside = (x >= lo) & (x <= hi)
        xi, wi = x[inside], w[inside]
        reach = 6 * self.sigma
        a, b = xi < lo + reach, xi > hi - reach
        self.x = np.concatenate((xi, 2 * lo - xi[a], 2 * hi - xi[b]))
        self.w = np.concatenate((wi, wi[a], wi[b]))
        o = np.argsort(self.x)
        self.x, self.w = self.x[o], self.w[o]
        self.cw = np.concatenate(([0.0], np.cumsum(self.w)))
        self.first, self.last = lo + 0.5 * self.h, hi - 0.5 * self.h
        s = self._s(np.array([self.first, self.last]))
        self.s0, self.tot = s[0], s[1] - s[0]

    def _s(self, q):
        out = np.empty(len(q))
        for k, v in enumerate(q):
            i, j = np.searchsorted(self.x, [v - 6 * self.sigma, v + 6 * self.sigma])
            out[k] = self.cw[i] + (self.w[i:j] * ndtr((v - self.x[i:j]) / self.sigma)).sum()
        return out

    def cdf(self, q):
        q = np.clip(np.atleast_1d(np.asarray(q, dtype=float)), self.first, self.last)
        return (self._s(q) - self.s0) / self.tot

    def pdf(self, q):
        q = np.clip(np.atleast_1d(np.asarray(q, dtype=float)), self.first, self.last)
        out = np.empty(len(q))
        for k, v in enumerate(q):
            i, j = np.searchsorted(self.x, [v - 6 * self.sigma, v + 6 * self.sigma])
            t = (v - self.x[i:j]) / self.sigma
            out[k] = (self.w[i:j] * np.exp(-0.5 * t * t)).sum() / self.sigma / np.sqrt(2 * np.pi)
        return out / self.tot

    def table(self, m: int = 1500):
        xs = np.linspace(self.first, self.last, m)
        return xs, self.pdf(xs), self.cdf(xs)

    def quantile(self, p, table=None):
        xs, _, cs = table or self.table()
        return np.interp(p, cs, xs)


def wmean_sd(x, w):
    mu = (w * x).sum() / w.sum()
    v1, v2 = w.sum(), (w * w).sum()
    return mu, np.sqrt((w * (x - mu) ** 2).sum() / (v1 - v2 / v1))


class Kernel:
    """Gaussian kernels of bandwidth 2 factor n^(-1/5) sd on the range of the data; truncated at three bandwidths or not."""

    def __init__(self, x, w, factor: float, bins: int, smooth: int, pad: bool, power: float = 1.0):
        lo, hi = extent(x, w)
        if pad:
            r = hi - lo
            lo, hi = lo - 0.2 * r, hi + 0.2 * r
        n = 2 * smooth * bins if smooth else bins
        self.h = (hi - lo) / (n - 1)
        self.first, self.last, self.r = lo + self.h / 2, hi - self.h / 2, hi - lo
        self.sigma = 2.0 * factor * len(x) ** (-0.2) * wmean_sd(x, w)[1]
        self.x, self.w, self.power = x, w, power

    def table(self, m: int = 400):
        xs = np.linspace(self.first, self.last, m)
        t = (xs[:, None] - self.x[None, :]) / self.sigma
        ys = (self.w * np.exp(-0.5 * t * t)).sum(axis=1) ** self.power
        cs = np.concatenate(([0.0], np.cumsum(0.5 * (ys[1:] + ys[:-1]))))
        ys = ys / (cs[-1] * (xs[1] - xs[0]))
        return xs, ys, cs / cs[-1]


class Grid:
    def __init__(self, x, w, power: float = 1.0):
        v = np.unique(x)
        m = np.array([w[x == u].sum() for u in v])
        self.v, self.m = v, m**power
        self.r = v[-1] - v[0]
        self.h = v[1] - v[0]

    def table(self, m: int = 20000):
        xs = np.linspace(self.v[0], self.v[-1], m)
        ys = np.interp(xs, self.v, self.m)
        cs = np.concatenate(([0.0], np.cumsum(0.5 * (ys[1:] + ys[:-1]))))
        ys = ys / (cs[-1] * (xs[1] - xs[0]))
        return xs, ys, cs / cs[-1]
