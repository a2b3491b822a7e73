"""Shared generators: a case is a small JSON value; the data is built from it deterministically."""

from __future__ import annotations

from typing import Any

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

# ---------------------------------------------------------------- one-dimensional families
FAMS: dict[str, Any] = {
    "normal": stats.norm(),
    "laplace": stats.laplace(),
    "logistic": stats.logistic(),
    "uniform": stats.uniform(-1, 2),
    "triangular": stats.triang(0.3, -1, 2.5),
    "exponential": stats.expon(),
    "gumbel": stats.gumbel_r(),
    "halfnormal": stats.halfnorm(),
    "beta25": stats.beta(2, 5),
    "beta52": stats.beta(5, 2),
    "skew": stats.skewnorm(4),
    "t5": stats.t(5),
    "gamma3": stats.gamma(3),
    "weibull2": stats.weibull_min(2),
}
UNIMODAL = ["normal", "laplace", "logistic", "triangular", "gumbel", "beta25", "beta52", "skew", "gamma3", "weibull2"]
SMOOTH = ["normal", "logistic", "gumbel", "beta25", "skew", "gamma3", "weibull2"]
EDGE = ["exponential", "halfnormal", "uniform"]


def quantiles(fam: str, n: int) -> np.ndarray:
    """n equally probable points of a family: a sample whose empirical distribution is within 1/2n of it."""
    return FAMS[fam].ppf((np.arange(n) + 0.5) / n)


def mixture(parts: list[list[float]], n: int, skews: list[float] | None = None) -> np.ndarray:
    """Equally probable points of a mixture of normals (or of gammas of unit variance, mirrored for a negative skew);
    parts = [[weight, mean, sd], ...] with disjoint supports in practice; every part gets a number of points
    proportional to its weight."""
    tot = sum(p[0] for p in parts)
    out = []
    for (w, mu, sd), a in zip(parts, skews or [0.0] * len(parts)):
        k = max(2, round(n * w / tot))
        q = (np.arange(k) + 0.5) / k
        z = stats.norm.ppf(q) if not a else np.sign(a) * (stats.gamma.ppf(q, abs(a)) - abs(a)) / np.sqrt(abs(a))
        out.append(mu + sd * z)
    return np.concatenate(out)


def shuffled(x: np.ndarray, seed: int) -> np.ndarray:
    return x[np.random.RandomState(seed).permutation(len(x))]


seeds = st.integers(0, 2**31 - 1)

ALIASES = ["weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"]

NAME_POOL = [
    "x", "y", "z", "A", "B", "C", "a", "b", "$\\Omega_m$", "$\\alpha$", "a b", "H0", "w", "mass", "log_mass", "1", "sigma_8",
    "col-1", "weight_2", "posterior_mean", "é", "param with space", "n_weights", "%", "X", "likelihood",
]


def names(min_size: int = 1, max_size: int = 4, pool: list[str] | None = None):
    return st.lists(st.sampled_from(pool or NAME_POOL), min_size=min_size, max_size=max_size, unique=True)


def loc_scale(extreme: bool = False):
    if extreme:
        return st.tuples(
            st.sampled_from([0.0, 1.0, -3.5, 100.0, -1e4, 1e6, 1e-3]),
            st.sampled_from([1.0, 0.3, 25.0, 1e-3, 1e3, 1e-6, 1e5]),
        )
    return st.tuples(st.floats(-20, 20).map(lambda v: round(v, 3)), st.floats(0.05, 20).map(lambda v: round(v, 3)))


@st.composite
def columns(draw, min_size=1, max_size=4, fams=None, pool=None, extreme=False):
    ns = draw(names(min_size, max_size, pool))
    out = []
    for n in ns:
        loc, scale = draw(loc_scale(extreme))
        out.append({"name": n, "fam": draw(st.sampled_from(fams or list(FAMS))), "loc": loc, "scale": scale})
    return out


WEIGHTS = [None, "ones", "const", "int", "real", "wide"]
INDEXES = ["range", "offset", "shuffled", "str", "dup", "step"]


@st.composite
def frames(draw, min_n=2, max_n=60, min_cols=1, max_cols=4, weights=None, post=True, wnames=None, lpnames=None, fams=None,
           pool=None, indexes=None, multiple=1, extreme=False):
    """A JSON description of a samples frame.  `multiple` makes the number of rows a multiple of it."""
    n = draw(st.integers(max(1, -(-min_n // multiple)), max(1, max_n // multiple))) * multiple
    d = {
        "n": n,
        "seed": draw(seeds),
        "cols": draw(columns(min_cols, max_cols, fams, pool, extreme)),
        "w": draw(st.sampled_from(weights if weights is not None else WEIGHTS)),
        "wname": draw(st.sampled_from(wnames or ["weight", "weight", "weight", "w8", "importance"])),
        "lp": draw(st.sampled_from([None, "real", "ties", "big"])) if post else None,
        "lpname": draw(st.sampled_from(lpnames or ["log_posterior", "log_posterior", "lnp"])),
        "index": draw(st.sampled_from(indexes or INDEXES)),
        "order": draw(seeds),
    }
    return normalise(d)


def normalise(d: dict) -> dict:
    if d["w"] is None:
        d["wname"] = "weight"
    taken = {d["wname"], d["lpname"]}
    d["cols"] = [c for c in d["cols"] if c["name"] not in taken]
    if not d["cols"]:
        d["cols"] = [{"name": "x", "fam": "normal", "loc": 0.0, "scale": 1.0}]
    return d


def make_weights(kind: str | None, n: int, rng: np.random.RandomState) -> np.ndarray | None:
    if kind is None:
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "const":
        return np.full(n, 0.37)
    if kind == "int":
        return rng.randint(1, 5, size=n).astype(float)
    if kind == "real":
        return rng.uniform(0.1, 3.0, size=n)
    if kind == "wide":
        return np.exp(rng.uniform(-9, 3, size=n))
    raise ValueError(kind)


def build_index(kind: str, n: int, rng: np.random.RandomState):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "offset":
        return pd.RangeIndex(1000, 1000 + n)
    if kind == "step":
        return pd.Index(np.arange(n) * 7 + 3)
    if kind == "shuffled":
        return pd.Index(rng.permutation(n))
    if kind == "str":
        return pd.Index([f"r{i}" for i in rng.permutation(n)])
    if kind == "dup":
        return pd.Index(rng.randint(0, max(1, n // 2), size=n))
    raise ValueError(kind)


def build(d: dict) -> pd.DataFrame:
    """The samples frame of a description made by `frames`."""
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    data: dict[str, np.ndarray] = {}
    for c in d["cols"]:
        u = np.clip(rng.uniform(size=n), 1e-9, 1 - 1e-9)
        data[c["name"]] = c["loc"] + c["scale"] * FAMS[c["fam"]].ppf(u)
    w = make_weights(d["w"], n, rng)
    if w is not None:
        data[d["wname"]] = w
    if d["lp"] is not None:
        lp = rng.normal(size=n) * 3 - 10
        if d["lp"] == "ties":
            lp = np.round(lp / 4) * 4.0
        elif d["lp"] == "big":
            lp = lp * 1e5 - 1e7
        data[d["lpname"]] = lp
    cols = list(data)
    rng2 = np.random.RandomState(d["order"])
    cols = [cols[i] for i in rng2.permutation(len(cols))]
    return pd.DataFrame({c: data[c] for c in cols}, index=build_index(d["index"], n, rng))


def params(d: dict, df: pd.DataFrame) -> list[str]:
    """The parameter columns, in frame order, by the documented rule."""
    return [c for c in df.columns if c not in (d["wname"], d["lpname"]) and c.lower() not in ALIASES]


def chain_kwargs(d: dict) -> dict:
    kw: dict[str, Any] = {}
    if d["wname"] != "weight":
        kw["weight_column"] = d["wname"]
    if d["lpname"] != "log_posterior":
        kw["posterior_column"] = d["lpname"]
    return kw


def weights_of(d: dict, df: pd.DataFrame) -> np.ndarray:
    return df[d["wname"]].to_numpy() if d["w"] is not None else np.ones(len(df))


STATS = ["max", "mean", "cumulative", "max_central", "hdi"]


def stat(name: str):
    from chainconsumer.statistics import SummaryStatistic

    return SummaryStatistic(name)


def wquantile_bracket(x: np.ndarray, w: np.ndarray, q: float, slack: float) -> tuple[float, float]:
    """The values between which the weighted q-quantile lies when the cumulative mass is uncertain by `slack`."""
    o = np.argsort(x, kind="stable")
    xs, cw = x[o], np.cumsum(w[o]) / np.sum(w)
    lo = np.searchsorted(cw, max(q - slack, 0.0), side="left")
    hi = np.searchsorted(cw, min(q + slack, 1.0), side="left")
    n = len(xs)
    return float(xs[min(lo, n - 1)] if q - slack > 0 else xs[0]), float(xs[min(hi, n - 1)])


def mass_between(x: np.ndarray, w: np.ndarray, lo: float, hi: float) -> float:
    return float(w[(x >= lo) & (x <= hi)].sum() / w.sum())
