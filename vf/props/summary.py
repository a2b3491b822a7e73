"""S: parameter summaries against reference models of the marginal distribution."""

from __future__ import annotations

import logging
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Ctx, Excluded, facet, prop

warnings.simplefilter("ignore")
logging.getLogger("chainconsumer").setLevel(logging.CRITICAL)

AREAS = [0.1, 0.3, 0.5, 0.6827, 0.8, 0.9, 0.9545, 0.997]


# ------------------------------------------------------------------------------------------------ cases
def marginal(fams=None, kinds=("strat", "random"), n=(400, 4000), weights=(None, "real", "int"), bins=(35, 200), smooth=(1, 5),
             areas=AREAS, statistic=gen.STATS):
    """A one-dimensional case: data, weights, chain settings."""
    return st.fixed_dictionaries({
        "fam": st.sampled_from(fams or list(gen.FAMS)), "kind": st.sampled_from(kinds), "n": st.integers(*n), "seed": gen.seeds,
        "loc": st.sampled_from([0.0, 0.0, 1.0, -7.3, 120.0, -4e3]), "scale": st.sampled_from([1.0, 0.02, 3.3, 40.0, 1e4, 1e-4]),
        "w": st.sampled_from(list(weights)), "bins": st.one_of(st.none(), st.integers(*bins)),
        "smooth": st.one_of(st.none(), st.integers(*smooth)) if smooth else st.just(0),
        "area": st.sampled_from(areas), "stat": st.sampled_from(statistic),
    })


def points(c) -> tuple[np.ndarray, np.ndarray]:
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    if c["kind"] == "strat":
        x = gen.shuffled(gen.quantiles(c["fam"], n), c["seed"])
    else:
        x = gen.FAMS[c["fam"]].ppf(np.clip(rng.uniform(size=n), 1e-7, 1 - 1e-7))
    x = c["loc"] + c["scale"] * x
    w = gen.make_weights(c["w"], n, rng)
    return x, np.ones(n) if w is None else w


def settings_of(c) -> dict:
    kw = {"summary_area": c["area"], "statistics": gen.stat(c["stat"])}
    if c.get("bins") is not None:
        kw["bins"] = c["bins"]
    if c.get("smooth") is not None:
        kw["smooth"] = c["smooth"]
    return kw


def bins_of(c) -> int:
    if c.get("bins") is not None:
        return c["bins"]
    return 100 if c.get("smooth") == 0 else 35


def smooth_of(c) -> int:
    return 3 if c.get("smooth") is None else c["smooth"]


def frame(x, w, name="x"):
    return pd.DataFrame({name: x, "weight": w})


def summary(df, kw, name="a", column="x"):
    from chainconsumer import Chain, ChainConsumer

    cc = ChainConsumer().add_chain(Chain(samples=df, name=name, **kw))
    return cc.analysis.get_summary()[name][column]


def arr(ctx: Ctx, b, what: str, constrained: bool = True) -> np.ndarray:
    """[lower, center, upper] of a Bound; ends with None only where `constrained` is False."""
    with ctx.reading(what):
        vals = [b.lower, b.center, b.upper]
        ctx.check(vals[1] is not None and math.isfinite(vals[1]), lambda: f"{what}: centre {vals[1]!r}")
        if vals[0] is None and vals[2] is None and not constrained:
            return np.array([np.nan, vals[1], np.nan])
        ctx.check(all(v is not None and math.isfinite(v) for v in vals), lambda: f"{what}: bounds {vals!r}")
        return np.array(vals, dtype=float)


def representative(x, w):
    """The recorded finding (the lowest of 2000 raw bins is dropped) has no visible effect on this sample."""
    h, e = np.histogram(x, weights=w, bins=2000)
    if h[0] > 0.02 * h.sum():
        raise Excluded("more than 2% of the mass in the lowest raw bin (recorded finding)")


def bracket(x, w, q, reach, slack):
    """Values between which the q-quantile of a blurred version of the sample must lie."""
    lo, hi = gen.wquantile_bracket(x, w, q, slack)
    return lo - reach, hi + reach


# ------------------------------------------------------------------------------------------------ S01
P = prop(
    "S01",
    "random frames (2 to 4 parameters, 8 to 800 rows, five statistics, random bins, smoothing, area, KDE, power, weights, several "
    "chains); every summary is checked for shape, finiteness, ordering and range. Non-trivial: at least 8 rows with distinct values.",
    ["samples whose lowest of 2000 raw bins holds more than 2% of the mass are left out where coverage is at stake (recorded finding)"],
)


def chain_settings(stats=gen.STATS, kde=True):
    return st.fixed_dictionaries({
        "stat": st.sampled_from(stats), "area": st.sampled_from([0.05, 0.3, 0.5, 0.6827, 0.9, 0.9545, 0.99, 1.0]),
        "bins": st.one_of(st.none(), st.integers(5, 150)), "smooth": st.one_of(st.none(), st.integers(0, 5)),
        "kde": st.sampled_from([False, False, False, True, 0.5, 2.0] if kde else [False]),
        "power": st.sampled_from([1.0, 1.0, 0.5, 2.0]),
    })


def kwargs_of(s):
    kw = settings_of(s)
    if s["kde"]:
        kw["kde"] = s["kde"]
    if s["power"] != 1.0:
        kw["power"] = s["power"]
    return kw


@facet(P, "well_formed", lambda: st.fixed_dictionaries({
    "ds": st.lists(gen.frames(min_n=8, max_n=800, min_cols=1, max_cols=4, indexes=["range", "shuffled", "str"], extreme=True), min_size=1, max_size=3),
    "ss": st.lists(chain_settings(), min_size=3, max_size=3), "discrete": st.booleans(), "sub": gen.seeds,
    "ask": st.sampled_from(["default", "chains", "columns", "both"]),
}), quick=260)
def well_formed(c, ctx):
    from chainconsumer import Chain, ChainConsumer

    cc = ChainConsumer()
    rng = np.random.RandomState(c["sub"])
    want = {}
    frames = []
    for i, (d, s) in enumerate(zip(c["ds"], c["ss"])):
        df = gen.build(d)
        par = gen.params(d, df)
        if c["discrete"] and not s["kde"]:
            for col in par[:1]:
                df[col] = np.round(df[col] / (df[col].max() - df[col].min()) * 6)
        name = f"chain {i}"
        ch = Chain(samples=df, name=name, **gen.chain_kwargs(d), **kwargs_of(s))
        cc.add_chain(ch)
        want[name] = (par, s, df, d)
        frames.append(ch)
    union = []
    for par, *_ in want.values():
        union += [p for p in par if p not in union]
    chains, columns = frames, None
    kw = {}
    if c["ask"] in ("chains", "both"):
        chains = [frames[i] for i in rng.permutation(len(frames))[: 1 + rng.randint(len(frames))]]
        kw["chains"] = chains
    if c["ask"] in ("columns", "both"):
        columns = [union[i] for i in rng.permutation(len(union))[: 1 + rng.randint(len(union))]]
        kw["columns"] = columns
    res = cc.analysis.get_summary(**kw)
    with ctx.reading("summary"):
        ctx.eq(list(res), [ch.name for ch in chains], "chains of the summary, in order")
        for name, out in res.items():
            par, s, df, d = want[name]
            ctx.eq(set(out), {p for p in par if columns is None or p in columns}, f"parameters summarised for {name!r}")
            for p, b in out.items():
                x = df[p].to_numpy(float)
                what = f"{s['stat']} summary of {p!r} ({b!r})"
                a = arr(ctx, b, what, constrained=s["stat"] != "max")
                r = np.ptp(x)
                pad = (0.25 if s["stat"] == "hdi" else 1e-9) * r + 1e-9 * np.abs(x).max() + (1e-3 if r == 0 else 0)
                ok = np.isnan(a) | ((a >= x.min() - pad) & (a <= x.max() + pad))
                ctx.check(ok.all(), lambda: f"{what}: outside the range of the samples {x.min()} .. {x.max()}")
                if not np.isnan(a).any():
                    ctx.check(a[0] <= a[2], lambda: f"{what}: lower above upper")
                    if s["stat"] != "max_central":
                        tol = 1e-12 * (abs(a[1]) + r)
                        ctx.check(a[0] - tol <= a[1] <= a[2] + tol, lambda: f"{what}: centre outside the bounds")
                    if r > 0 and s["area"] >= 0.3:
                        ctx.check(a[2] > a[0], lambda: f"{what}: interval of zero width")
                ctx.label("stat " + s["stat"], "kde" if s["kde"] else "histogram")
    ctx.label("ask " + c["ask"])
    ctx.hit()


@facet(P, "nested", lambda: st.fixed_dictionaries({
    "m": marginal(n=(20, 1500), bins=(8, 150), smooth=(0, 5), statistic=["mean", "cumulative", "max_central", "hdi"]),
    "areas": st.lists(st.floats(0.02, 1.0).map(lambda v: round(v, 4)), min_size=2, max_size=3, unique=True),
    "kde": st.sampled_from([False, False, False, 1.0]),
}), quick=260)
def nested(c, ctx):
    m = c["m"]
    x, w = points(m)
    kw = settings_of(m)
    if c["kde"]:
        kw["kde"] = c["kde"]
    last = None
    r = np.ptp(x)
    for area in sorted(c["areas"]):
        a = arr(ctx, summary(frame(x, w), {**kw, "summary_area": area}), f"{m['stat']} area {area}")
        if last is not None:
            la, lb = last
            if m["stat"] == "hdi":
                ctx.check(a[2] - a[0] >= lb[2] - lb[0] - 1e-6 * r, lambda: f"hdi of area {area} is narrower than that of area {la}")
            else:
                ctx.check(a[0] <= lb[0] + 1e-9 * r and a[2] >= lb[2] - 1e-9 * r,
                          lambda: f"{m['stat']}: the interval of area {area} {a} does not contain that of area {la} {lb}")
                if m["stat"] in ("cumulative", "max_central"):
                    ctx.close(a[1], lb[1], f"{m['stat']}: centre depends on the area", atol=1e-12 * r, rtol=1e-12)
        last = (area, a)
    ctx.label(m["stat"])
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S02
P = prop(
    "S02",
    "random samples of 14 families, weights, bins, smoothing, areas, three quantile statistics; the model is the sample's own "
    "weighted distribution blurred by the configured smoothing. Non-trivial: the reported bounds enclose at least 5 samples.",
    ["samples with more than 2% of the mass in the lowest raw bin are excluded (recorded finding)"],
)
Q_TOL = 0.004


def model_of(c, x, w):
    pad = c["stat"] == "hdi"
    return ref.Smoothed(x, w, bins_of(c), smooth_of(c), pad)


def mode_tol(c, m, ys) -> float:
    """How far a density may differ from the model's: a histogram resolves little where few samples fall into a blur width."""
    q = ys.max() * m.h * c["n"] * smooth_of(c)
    return 0.25 if q < 16 else 0.13 if smooth_of(c) == 1 or q < 32 else 0.06


@facet(P, "smoothed", lambda: marginal(n=(300, 3000), statistic=["mean", "cumulative", "max_central"]), quick=350)
def q_smoothed(c, ctx):
    x, w = points(c)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), c["stat"])
    m = model_of(c, x, w)
    f = m.cdf(a)
    ys = m.table()[1]
    tol = Q_TOL if mode_tol(c, m, ys) < 0.1 else 2.5 * Q_TOL
    ctx.close(f[0], 0.5 - c["area"] / 2, f"{c['stat']}: probability below the lower bound {a[0]}", rtol=0, atol=tol)
    ctx.close(f[2], 0.5 + c["area"] / 2, f"{c['stat']}: probability below the upper bound {a[2]}", rtol=0, atol=tol)
    if c["stat"] == "cumulative":
        ctx.close(f[1], 0.5, f"cumulative: probability below the centre {a[1]}", rtol=0, atol=tol)
    elif c["stat"] == "mean":
        ctx.close(a[1], 0.5 * (a[0] + a[2]), "mean: centre is not the midpoint of the bounds", rtol=0, atol=1e-9 * m.r)
    else:
        ctx.check(m.pdf(a[1])[0] > (1 - mode_tol(c, m, ys)) * ys.max(), lambda: f"max_central: density at the centre {a[1]} is {m.pdf(a[1])[0] / ys.max():.3f} of the peak")
    ctx.label(c["stat"], c["fam"], str(c["w"]))
    if ((x > a[0]) & (x < a[2])).sum() >= 5:
        ctx.hit()


@facet(P, "raw", lambda: marginal(n=(300, 3000), statistic=["mean", "cumulative", "max_central"], bins=(20, 200), smooth=None), quick=250)
def q_raw(c, ctx):
    """Without smoothing the quantiles are those of the sample, up to one histogram bin."""
    x, w = points(c)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), c["stat"])
    h = np.ptp(x) / (bins_of(c) - 1)
    for k, q in ((0, 0.5 - c["area"] / 2), (2, 0.5 + c["area"] / 2)) + (((1, 0.5),) if c["stat"] == "cumulative" else ()):
        # half of each outermost bin carries no mass in a curve through the bin centres
        i, f = np.histogram(x, bins=bins_of(c) - 1, weights=w, range=ref.extent(x, w))
        edge = 0.6 * max(i[0], i[-1]) / i.sum() + 2e-3 + 2 * w.max() / w.sum()
        lo, hi = bracket(x, w, q, 1.7 * h, edge)
        ctx.check(lo <= a[k] <= hi, lambda: f"{c['stat']}: {a[k]} is not the {q:.4f} quantile, which lies in {lo} .. {hi}")
    if c["stat"] == "mean":
        ctx.close(a[1], 0.5 * (a[0] + a[2]), "mean: centre is not the midpoint of the bounds", rtol=0, atol=1e-9 * np.ptp(x))
    ctx.label(c["stat"], c["fam"], str(c["w"]))
    if ((x > a[0]) & (x < a[2])).sum() >= 5:
        ctx.hit()


# ------------------------------------------------------------------------------------------------ S03
P = prop(
    "S03",
    "random samples of 14 families, weights, bins, smoothing and areas; mode, equal density at both ends and enclosed mass are read "
    "off the blurred sample. Non-trivial: both bounds are reported.",
    ["samples with more than 2% of the mass in the lowest raw bin are excluded (recorded finding)"],
)


def max_checks(c, ctx, m, a, tol_mass=0.011):
    xs, ys, _ = m.table()
    tol_mode = mode_tol(c, m, ys)
    tol_iso = max(0.05, tol_mode)
    peak = ys.max()
    p = m.pdf(a) / peak
    ctx.check(p[1] >= 1 - tol_mode, lambda: f"the density at the centre {a[1]} is {p[1]:.3f} of the highest density, at {xs[ys.argmax()]}")
    f = m.cdf(a)
    ctx.close(f[2] - f[0], c["area"], f"probability between {a[0]} and {a[2]}", rtol=0, atol=tol_mass)
    at_edge = a[0] <= m.first + 2.5 * m.h or a[2] >= m.last - 2.5 * m.h
    if not at_edge:
        slope = abs(m.pdf([a[0] + m.h, a[2] + m.h]) - m.pdf([a[0] - m.h, a[2] - m.h])).max() / peak
        ctx.check(abs(p[0] - p[2]) <= tol_iso + 0.5 * slope, lambda: f"densities at the bounds differ: {p[0]:.3f} and {p[2]:.3f} of the peak")
        # nothing below the bounds' level lies between them, nothing higher is left out next to them
        level = min(p[0], p[2])
        inside = ys[(xs > a[0]) & (xs < a[2])] / peak
        ctx.check(inside.size == 0 or inside.min() >= level - tol_iso - 0.5 * slope,
                  lambda: f"the density falls to {inside.min():.3f} of the peak inside the interval whose ends are at {level:.3f}")
    ctx.label("edge" if at_edge else "interior")


@facet(P, "smoothed", lambda: marginal(n=(300, 3000), statistic=["max"]), quick=350)
def max_smoothed(c, ctx):
    x, w = points(c)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), "max", constrained=False)
    m = model_of(c, x, w)
    if np.isnan(a).any():
        xs, ys, _ = m.table()
        ctx.check(m.pdf(a[1])[0] >= (1 - mode_tol(c, m, ys)) * ys.max(), "the centre of an unconstrained parameter is not at the highest density")
        ctx.label("unconstrained")
        return
    max_checks(c, ctx, m, a)
    ctx.label(c["fam"], str(c["w"]))
    ctx.hit()


@facet(P, "constrained", lambda: marginal(fams=gen.SMOOTH, kinds=["strat"], n=(1500, 4000), weights=[None, "ones"], bins=(35, 80), smooth=(2, 5),
                                          statistic=["max"], areas=AREAS[1:]), quick=200)  # ripples at the top matter for tiny areas
def max_constrained(c, ctx):
    """A single smooth hump in the interior always gets both bounds."""
    x, w = points(c)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), "max")
    max_checks(c, ctx, model_of(c, x, w), a, tol_mass=0.008)
    ctx.label(c["fam"])
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S04
P = prop(
    "S04",
    "random samples of 14 families, weights, bins, smoothing and areas; enclosed mass, width against the narrowest window of the "
    "blurred sample, centre at half of the enclosed mass. Non-trivial: every case decided.",
    ["samples with more than 2% of the mass in the lowest raw bin are excluded (recorded finding)"],
)


@facet(P, "smoothed", lambda: marginal(n=(300, 3000), statistic=["hdi"]), quick=350)
def hdi_smoothed(c, ctx):
    x, w = points(c)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), "hdi")
    m = model_of(c, x, w)
    xs, ys, cs = m.table(3000)
    f = m.cdf(a)
    ctx.close(f[2] - f[0], c["area"], f"probability between {a[0]} and {a[2]}", rtol=0, atol=0.008 if mode_tol(c, m, ys) < 0.1 else 0.015)
    tol = 0.005 if mode_tol(c, m, ys) < 0.1 else 0.015
    ctx.close(f[1], 0.5 * (f[0] + f[2]), "share of the interval's probability below its centre", rtol=0, atol=tol)
    tol_mass = 0.004 if mode_tol(c, m, ys) < 0.1 else 0.01

    def narrowest(area):
        j = np.searchsorted(cs, cs + area)
        ok = j < len(xs)
        return (xs[np.minimum(j, len(xs) - 1)] - xs)[ok].min() if ok.any() else np.inf

    ctx.check(narrowest(c["area"] - tol_mass) - 0.003 * m.r <= a[2] - a[0] <= narrowest(c["area"] + tol_mass) + 0.003 * m.r,
              lambda: f"width {a[2] - a[0]}, but a window of width {narrowest(c['area'])} holds the same probability (range {m.r})")
    ctx.label(c["fam"], str(c["w"]))
    ctx.hit()


@facet(P, "raw", lambda: marginal(n=(250, 3000), bins=(25, 200), smooth=None, statistic=["hdi"], areas=[0.3, 0.5, 0.6827, 0.9]), quick=200)
def hdi_raw(c, ctx):
    """Without smoothing, any window of the sample with clearly more mass is at least as wide (up to two bins)."""
    x, w = points(c)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), settings_of(c)), "hdi")
    h = 1.4 * np.ptp(x) / (bins_of(c) - 1)
    o = np.argsort(x)
    xs, cw = x[o], np.concatenate(([0.0], np.cumsum(w[o]))) / w.sum()
    inside = gen.mass_between(x, w, a[0] - 1.2 * h, a[2] + 1.2 * h)
    ctx.check(inside >= c["area"] - 2e-3 - 4 * w.max() / w.sum(), lambda: f"the interval holds {inside:.4f} even when widened by a bin on each side")
    inner = gen.mass_between(x, w, a[0] + 1.2 * h, a[2] - 1.2 * h)
    ctx.check(inner <= c["area"] + 2e-3, lambda: f"the interval holds {inner:.4f} even when shortened by a bin on each side")
    j = np.searchsorted(cw, cw[:-1] + c["area"] + 0.002)
    ok = j < len(cw)
    narrowest = (xs[np.minimum(j, len(cw) - 1) - 1] - xs)[ok].min() if ok.any() else np.inf
    ctx.check(a[2] - a[0] <= narrowest + 2.6 * h, lambda: f"width {a[2] - a[0]}, but {narrowest} holds more probability")
    ctx.label(c["fam"], str(c["w"]))
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S05
P = prop(
    "S05",
    "mixtures of one to four well separated humps with random weights, widths and positions, stratified samples, random bins, "
    "smoothing and areas; bands against the level set of the blurred sample. Non-trivial: at least two bands expected.",
)


def mixtures():
    return st.fixed_dictionaries({
        "parts": st.lists(st.tuples(st.floats(0.6, 1.8), st.one_of(st.floats(0.2, 1.6), st.floats(0.2, 1.6), st.floats(0.1, 0.2), st.floats(1.6, 2.2)), st.floats(9.0, 16.0)), min_size=1, max_size=4)
        | st.lists(st.tuples(st.floats(0.7, 1.4), st.floats(0.6, 1.8), st.floats(9.0, 16.0)), min_size=5, max_size=9),
        "skews": st.lists(st.sampled_from([0.0, 0.0, 1.5, -1.5, 3.0, -3.0]), min_size=9, max_size=9),
        "loc": st.sampled_from([0.0, 55.0, -1e3]), "scale": st.sampled_from([1.0, 0.01, 7.0, 1e-5, 1e4]),
        "n": st.integers(4000, 9000), "seed": gen.seeds, "area": st.sampled_from([0.5, 0.6827, 0.8, 0.9, 0.9545, 0.5, 0.6827, 0.8, 0.9, 0.9545, 1.0]),
        "bins": st.one_of(st.integers(45, 90), st.integers(90, 250), st.integers(250, 400)), "smooth": st.integers(1, 3), "w": st.sampled_from([None, "int2"]), "kde": st.sampled_from([None, None, None, 0.12]),
    })


def mixture_points(c):
    pos, parts = 0.0, []
    for k, (wt, sd, gap) in enumerate(c["parts"]):
        parts.append([wt, pos, sd])
        pos += gap
    x = gen.mixture(parts, c["n"], c["skews"])
    w = np.ones(len(x))
    if c["w"] == "int2":  # every other point is split in two halves
        w[::2] = 0.5
        x, w = np.concatenate((x, x[::2])), np.concatenate((w, w[::2]))
    x = c["loc"] + c["scale"] * x
    p = np.random.RandomState(c["seed"]).permutation(len(x))
    return x[p], w[p]


def level_bands(xs, ys, cs, area):
    """Level set of mass `area`: the level and its runs."""
    lo, hi = 0.0, ys.max()
    dens = ys / ys.sum()
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        if dens[ys >= mid].sum() > area:
            lo = mid
        else:
            hi = mid
    mask = ys >= lo
    d = np.diff(np.concatenate(([0], mask.astype(int), [0])))
    return lo, [(xs[s], xs[e - 1]) for s, e in zip(np.where(d == 1)[0], np.where(d == -1)[0])]


@facet(P, "bands", mixtures, quick=300)
def bands(c, ctx):
    if len(c["parts"]) > 4:  # many humps need a fine histogram
        c["bins"], c["smooth"] = max(150, c["bins"]), 1
    if not c["kde"]:  # enough samples in every bin that an edge of a band is not frayed
        c["n"] = max(c["n"], 80 * c["bins"])
    x, w = mixture_points(c)
    kw = {"summary_area": c["area"], "statistics": gen.stat("hdi"), "multimodal": True, "bins": c["bins"], "smooth": c["smooth"]}
    if c["kde"]:
        kw["kde"] = c["kde"]
        m = ref.Kernel(x, w, c["kde"], c["bins"], c["smooth"], True)
        xs, ys, cs = m.table(1500)
    else:
        m = ref.Smoothed(x, w, c["bins"], c["smooth"], True)
        xs, ys, cs = m.table(3000)
    if c["area"] == 1.0:  # everything is in some band; the level is zero, so what separates the bands is empty
        res = summary(frame(x, w), kw)
        bs = [arr(ctx, b, f"band {i}") for i, b in enumerate(res if isinstance(res, list) else [res])]
        for i, b in enumerate(bs):
            ctx.check(b[0] < b[1] < b[2] and (i == 0 or bs[i - 1][2] < b[0]), lambda: f"bands of the whole probability are not ordered: {bs}")
        total = sum(np.interp(b[2], xs, cs) - np.interp(b[0], xs, cs) for b in bs)
        ctx.close(total, 1.0, "probability of all bands together", rtol=0, atol=0.01)
        ctx.label("whole")
        return
    level, want = level_bands(xs, ys, cs, c["area"])
    # the expected number of bands is only used where no hump or gap is near the level
    near = 0.08 * ys.max()
    for lv in (level - near, level + near):
        mask = ys >= lv
        d = np.diff(np.concatenate(([0], mask.astype(int), [0])))
        if (d == 1).sum() != len(want):
            raise Excluded("a hump or a dip lies near the level")
    res = summary(frame(x, w), kw)
    if len(want) == 1:
        single = arr(ctx, summary(frame(x, w), {**kw, "multimodal": False}), "hdi")
        ctx.check(not isinstance(res, list), lambda: f"{len(res)} bands for a single hump: {res!r}")
        ctx.eq([float(v) for v in arr(ctx, res, "single band")], [float(v) for v in single], "summary of a single hump (multimodal)")
        ctx.label("one band")
        return
    ctx.check(isinstance(res, list), lambda: f"a single interval {res!r} instead of the bands {want}")
    ctx.check(len(res) == len(want), lambda: f"{len(res)} bands {res!r} instead of {len(want)}: {want}")
    bs = [arr(ctx, b, f"band {i}") for i, b in enumerate(res)]
    total = edge = 0.0
    r = m.r
    for i, (b, (lo, hi)) in enumerate(zip(bs, want)):
        ctx.check(b[0] < b[1] < b[2], lambda: f"band {i} is not ordered: {b}")
        if i:
            ctx.check(bs[i - 1][2] < b[0], lambda: f"bands {i - 1} and {i} overlap or are out of order")
        sl = [abs(np.interp(v + 3 * m.h, xs, ys) - np.interp(v - 3 * m.h, xs, ys)) / (6 * m.h) for v in (lo, hi)]
        slack = [min(0.05 * r, 0.02 * r / 10 + 0.04 * ys.max() / max(s, 1e-300)) for s in sl]
        ctx.check(abs(b[0] - lo) <= slack[0] and abs(b[2] - hi) <= slack[1], lambda: f"band {i} is {b}, expected {lo} .. {hi}")
        hump = ys[(xs >= lo) & (xs <= hi)]
        near = np.interp(np.linspace(b[1] - 0.8 * m.h, b[1] + 0.8 * m.h, 9), xs, ys).max()
        ctx.check(near >= 0.97 * hump.max(), lambda: f"the centre of band {i} {b} is not at its highest density")
        total += np.interp(b[2], xs, cs) - np.interp(b[0], xs, cs)
        # what an end may be off by without being wrong, in probability
        edge += (np.interp(lo, xs, ys) + np.interp(hi, xs, ys)) / np.trapezoid(ys, xs) * 0.002 * r
    ctx.close(total, c["area"], "probability of all bands together", rtol=0, atol=0.02 + 0.4 * edge)
    ctx.label(f"{len(want)} bands", "kde" if c["kde"] else "histogram")
    ctx.hit()


@facet(P, "plateaus", lambda: st.fixed_dictionaries({
    "tops": st.lists(st.tuples(st.integers(4, 14), st.integers(3, 12), st.sampled_from([4, 4, 2, 8])), min_size=1, max_size=4), "area": st.sampled_from([0.3, 0.5, 0.6827, 0.9, 0.9545]),
    "grid": st.booleans(), "smooth": st.sampled_from([0, 0, 1, 3]), "loc": st.sampled_from([0.0, -40.0]), "scale": st.sampled_from([1.0, 1e-3, 50.0]),
}), quick=120)
def plateaus(c, ctx):
    """Distributions with flat tops: whole numbers, each as often as its plateau is high."""
    v, k, pos = [], [], 0
    for width, gap, high in c["tops"]:
        v += list(range(pos, pos + width))
        k += [high] * width
        pos += width + gap
    v, k = np.array(v, float), np.array(k)
    n = int(v[-1] - v[0]) + 1
    c_x = c["loc"] + c["scale"] * v
    kw = {"summary_area": c["area"], "statistics": gen.stat("hdi"), "multimodal": True}
    if c["grid"]:
        df = pd.DataFrame({"x": c["loc"] + c["scale"] * np.arange(n)})
        df["weight"] = 1e-9
        df.loc[v.astype(int), "weight"] = k.astype(float)
        kw["grid"] = True
    else:
        df = pd.DataFrame({"x": np.repeat(c_x, k)})
        kw.update(bins=n, smooth=c["smooth"])
    res = summary(df, kw)
    bs = [arr(ctx, b, f"band {i}") for i, b in enumerate(res if isinstance(res, list) else [res])]
    h = 2.5 * c["scale"] * (1 + (0 if c["grid"] else c["smooth"]))
    total = np.zeros(len(v), bool)
    for i, b in enumerate(bs):
        ctx.check(b[0] <= b[1] <= b[2] , lambda: f"band {i} of a flat-topped distribution is not ordered: {b}")
        ctx.check(i == 0 or bs[i - 1][2] < b[0], lambda: f"the bands overlap or are out of order: {bs}")
        total |= (c_x >= b[0] - h) & (c_x <= b[2] + h)
    ctx.check(k[total].sum() >= c["area"] * k.sum() * 0.97 - 1, lambda: f"the bands {bs} hold {k[total].sum() / k.sum():.3f} even when widened by two steps")
    # plateaus are taken from the top until the bands hold enough
    share = {lv: k[k >= lv].sum() / k.sum() for lv in sorted(set(k.tolist()))}
    if c["grid"] and all(abs(s - c["area"]) > 0.08 for s in share.values()):
        level = max(lv for lv, s in share.items() if s > c["area"])
        low = (k < level) & np.array([any(b[0] + h < u < b[2] - h for b in bs) for u in c_x])
        ctx.check(not low.any(), lambda: f"the bands {bs} contain {c_x[low].tolist()}, where the plateau is lower than where the probability is reached")
        ctx.label("levels judged")
    ctx.label(f"{len(bs)} bands", "grid" if c["grid"] else "histogram")
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S06
P = prop(
    "S06",
    "pairs of equivalent weighted samples (repeated rows, scaled weights, permuted rows) with random settings; weights are dyadic so "
    "sums are exact. Non-trivial: the weights are not all equal, or the order changed.",
)


@facet(P, "equivalent", lambda: st.fixed_dictionaries({
    "m": marginal(n=(20, 1200), bins=(8, 120), smooth=(0, 5)), "how": st.sampled_from(["repeat", "repeat", "scale", "scale", "permute", "split"]),
    "k": st.sampled_from([-40, -9, -3, 1, 5, 12, 30]), "wide": st.booleans(), "maxw": st.integers(1, 5), "mm": st.booleans(), "pw": st.sampled_from([1.0, 2.0]), "seed2": gen.seeds,
}), quick=260)
def equivalent(c, ctx):
    m = c["m"]
    m["w"] = None
    x, _ = points(m)
    rng = np.random.RandomState(c["seed2"])
    n = len(x)
    w = rng.randint(1, c["maxw"] + 1, size=n).astype(float)
    if c["wide"] and c["how"] != "repeat":
        w *= 2.0 ** rng.randint(-14, 3, size=n)
    if c["how"] == "repeat":
        x2 = np.repeat(x, w.astype(int))
        w2 = np.ones(len(x2))
        p = rng.permutation(len(x2))
        x2, w2 = x2[p], w2[p]
    elif c["how"] == "scale":
        x2, w2 = x, w * 2.0 ** c["k"]
    elif c["how"] == "permute":
        p = rng.permutation(n)
        x2, w2 = x[p], w[p]
    else:
        x2, w2 = np.concatenate((x, x)), np.concatenate((w / 4, 3 * w / 4))
    kw = settings_of(m)
    if c["mm"] and m["stat"] == "hdi":
        kw["multimodal"] = True
    if c["pw"] != 1:
        kw["power"] = c["pw"]
    a, b = summary(frame(x, w), kw), summary(frame(x2, w2), kw)
    r = np.ptp(x)
    same_summary(ctx, a, b, 1e-9 * r, f"{m['stat']} after {c['how']}")
    if c["how"] in ("permute", "split", "scale") or c["maxw"] > 1:
        ctx.hit()
    ctx.label(c["how"], m["stat"])


@facet(P, "moments", lambda: st.fixed_dictionaries({
    "m": marginal(n=(20, 400), bins=(8, 60), smooth=(0, 3)), "how": st.sampled_from(["repeat", "scale", "permute", "split"]), "k": st.sampled_from([-40, -9, -3, 1, 5, 12, 30]),
    "maxw": st.integers(1, 5), "kde": st.sampled_from([True, 0.6]), "cols": st.integers(1, 3), "seed2": gen.seeds}), quick=120)
def moments(c, ctx):
    """Kernel estimates, covariances and correlations of equivalent samples."""
    from chainconsumer import Chain

    m = c["m"]
    m["w"] = None
    x, _ = points(m)
    rng = np.random.RandomState(c["seed2"])
    n = len(x)
    w = rng.randint(1, c["maxw"] + 1, size=n).astype(float)
    df = pd.DataFrame({"x": x, "weight": w})
    for k in range(1, c["cols"]):
        df[f"y{k}"] = rng.normal(size=n) + 0.5 * k * (x - x.mean()) / (x.std() + 1e-300)
    if c["how"] == "repeat":
        df2 = df.loc[np.repeat(np.arange(n), w.astype(int))].assign(weight=1.0)
    elif c["how"] == "scale":
        df2 = df.assign(weight=w * 2.0 ** c["k"])
    elif c["how"] == "permute":
        df2 = df.iloc[rng.permutation(n)]
    else:
        df2 = pd.concat((df.assign(weight=w / 4), df.assign(weight=3 * w / 4)))
    kw = {**settings_of(m), "kde": c["kde"]}
    a, b = Chain(samples=df, name="a", **kw), Chain(samples=df2, name="a", **kw)
    ra, rb = a.get_correlation().matrix, b.get_correlation().matrix
    ctx.close(rb, ra, f"correlation after {c['how']}", rtol=0, atol=1e-9 * (1 + np.abs(x).max() / (x.std() + 1e-300)))
    if c["how"] in ("scale", "permute"):
        ca, cb = a.get_covariance().matrix, b.get_covariance().matrix
        sd = np.sqrt(np.diag(ca))
        ctx.check(np.all(np.abs(cb - ca) <= 1e-9 * (1 + np.abs(x).max() / (x.std() + 1e-300)) * np.outer(sd, sd)), f"covariance after {c['how']}")
        same_summary(ctx, summary(df, kw), summary(df2, kw), 2e-5 * np.ptp(x), f"{m['stat']} of a kernel estimate after {c['how']}")
    if c["cols"] > 1:
        ctx.hit()
    ctx.label(c["how"], m["stat"])


def same_summary(ctx, a, b, tol, what):
    with ctx.reading(what):
        la, lb = (a if isinstance(a, list) else [a]), (b if isinstance(b, list) else [b])
        ctx.check(isinstance(a, list) == isinstance(b, list) and len(la) == len(lb), lambda: f"{what}: {a!r} became {b!r}")
        for u, v in zip(la, lb):
            ua, va = u.array, v.array
            ctx.check(np.array_equal(np.isnan(ua), np.isnan(va)), lambda: f"{what}: {a!r} became {b!r}")
            ok = np.isnan(ua) | (np.abs(ua - va) <= tol)
            ctx.check(ok.all(), lambda: f"{what}: {a!r} became {b!r} (tolerance {tol})")


# ------------------------------------------------------------------------------------------------ S07
P = prop(
    "S07",
    "a sample and its image under a change of units (scaling by powers of two from 2^-300 to 2^300, shifts on a lattice, reflection) with "
    "random settings and statistics. Non-trivial: the map is not the identity.",
)


@facet(P, "scaling", lambda: st.fixed_dictionaries({
    "m": marginal(n=(20, 1500), bins=(8, 120), smooth=(0, 5)), "k": st.one_of(st.sampled_from([-300, -120, -60, 60, 120, 300]), st.integers(-40, 40)),
    "kde": st.sampled_from([False, False, False, True, 0.7]), "mm": st.booleans(), "pw": st.sampled_from([None, 2.0, 0.5]),
}), quick=260)
def scaling(c, ctx):
    m = c["m"]
    m["loc"] = m["loc"] if abs(m["loc"]) < 200 else 0.0
    m["scale"] = 1.0
    x, w = points(m)
    kw = settings_of(m)
    f = 2.0 ** c["k"]
    if c["kde"]:
        kw["kde"] = c["kde"]
        if abs(c["k"]) > 120:
            f = 2.0 ** (c["k"] // 3)
    if c["mm"] and m["stat"] == "hdi":
        kw["multimodal"] = True
    if c["pw"] and not (abs(c["k"]) > 120):
        kw["power"] = c["pw"]
    a, b = summary(frame(x, w), kw), summary(frame(x * f, w), kw)
    la, lb = (a if isinstance(a, list) else [a]), (b if isinstance(b, list) else [b])
    ctx.check(len(la) == len(lb) and isinstance(a, list) == isinstance(b, list), lambda: f"{m['stat']}: {a!r} became {b!r} after scaling by {f}")
    r = np.ptp(x)
    exact = c["pw"] in (None, 2.0) and not c["kde"]
    for u, v in zip(la, lb):
        ua, va = arr(ctx, u, "summary", False), arr(ctx, v, f"summary after scaling by {f}", m["stat"] != "max") / f
        if exact or m["stat"] in ("mean", "cumulative"):
            ok = (np.isnan(ua) & np.isnan(va)) | (np.abs(ua - va) <= 1e-7 * r)
        else:  # a discrete choice between near ties may fall the other way
            if np.isnan(ua).any() or np.isnan(va).any():
                raise Excluded("unconstrained next to a tie")
            ok = np.abs(ua - va) <= 0.05 * r
        ctx.check(ok.all(), lambda: f"{m['stat']}: {u!r} became {v!r} after scaling by 2^{np.log2(f):.0f}")
    ctx.label(m["stat"], "kde" if c["kde"] else "histogram", "extreme" if abs(c["k"]) >= 60 else "ordinary")
    if c["k"]:
        ctx.hit()


@facet(P, "shift", lambda: st.fixed_dictionaries({
    "m": marginal(n=(300, 2000), bins=(30, 120), smooth=(1, 5)), "by": st.sampled_from([1.0, -3.0, 1024.0, 65536.0, -2.0**20, 2.0**30]),
    "flip": st.booleans(),
}), quick=220)
def shift(c, ctx):
    """The samples lie on a lattice, so the shifted samples are exact; bin edges may round differently."""
    m = c["m"]
    m["loc"], m["scale"] = 0.0, 1.0
    if c["flip"]:
        m["n"] = max(m["n"], 1000)
        if m["fam"] not in gen.SMOOTH:
            m["fam"] = "normal"
    x, w = points(m)
    representative(x, w)
    if c["flip"]:
        representative(-x, w)
    x = np.round(x * 2**22) / 2**22
    kw = settings_of(m)
    s = -1.0 if c["flip"] else 1.0
    a, b = summary(frame(x, w), kw), summary(frame(s * x + c["by"], w), kw)
    ua, va = arr(ctx, a, "summary", m["stat"] != "max"), (arr(ctx, b, "shifted summary", m["stat"] != "max") - c["by"]) * s
    if c["flip"]:
        va = va[::-1]
    if np.isnan(ua).any() or np.isnan(va).any():
        ua, va = ua[1:2], va[1:2]
    md = ref.Smoothed(x, w, bins_of(m), smooth_of(m), m["stat"] == "hdi")
    if m["stat"] in ("mean", "cumulative"):
        if m["stat"] == "mean":
            fa, fb = md.cdf(ua[[0, -1]]), md.cdf(va[[0, -1]])
        else:
            fa, fb = md.cdf(ua), md.cdf(va)
        ctx.check(np.abs(fa - fb).max() <= 0.01, lambda: f"{m['stat']}: {a!r} became {b!r} after the shift by {c['by']} (flip {c['flip']})")
    elif m["stat"] == "hdi":
        fa, fb = md.cdf(ua), md.cdf(va)
        ctx.close(fb[2] - fb[0], fa[2] - fa[0], "hdi: probability after the shift", rtol=0, atol=0.02)
        ctx.close(va[2] - va[0], ua[2] - ua[0], "hdi: width after the shift", rtol=0, atol=0.02 * md.r)
    else:
        pk = md.table()[1].max()
        mode = 1 if len(ua) == 3 else 0
        ctx.check(md.pdf(va[mode])[0] >= (1 - 1.5 * mode_tol(m, md, md.table()[1])) * pk, lambda: f"{m['stat']}: mode {a!r} became {b!r}")
        if len(ua) == 3 and m["stat"] == "max_central":
            ctx.check(np.abs(md.cdf(ua[[0, 2]]) - md.cdf(va[[0, 2]])).max() <= 0.006, lambda: f"max_central: {a!r} became {b!r}")
        elif len(ua) == 3:
            fa, fb = md.cdf(ua), md.cdf(va)
            ctx.close(fb[2] - fb[0], fa[2] - fa[0], "max: probability after the shift", rtol=0, atol=0.015)
    ctx.label(m["stat"], "flip" if c["flip"] else "shift")
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S08
P = prop(
    "S08",
    "samples of families whose p-th power of the density is known in closed form, powers from 0.25 to 4, histogram and KDE, three "
    "statistics. Non-trivial: the power differs from one.",
)


@facet(P, "analytic", lambda: st.fixed_dictionaries({
    "fam": st.sampled_from(["normal", "gamma", "beta"]), "p": st.sampled_from([1.0, 0.3, 0.5, 1.5, 2.0, 3.0, 4.0]),
    "n": st.integers(6000, 12000), "bins": st.integers(40, 70), "smooth": st.sampled_from([0, 1, 2]), "kde": st.sampled_from([None, None, 0.4]),
    "stat": st.sampled_from(["cumulative", "mean", "max_central", "hdi"]), "area": st.sampled_from([0.5, 0.6827, 0.9]), "seed": gen.seeds,
    "loc": st.sampled_from([0.0, -31.0]), "scale": st.sampled_from([1.0, 50.0, 1e-3]),
}), quick=120)
def power_analytic(c, ctx):
    from scipy import stats

    p = c["p"]
    if p < 1 and c["fam"] == "gamma":
        c["fam"] = "beta"  # a power below one amplifies the counting noise of a sparse tail
    if c["kde"]:
        c["n"], c["p"] = c["n"] // 4, max(p, 0.5)
        p = c["p"]
        if c["fam"] != "normal":
            c["fam"] = "normal"
    fam, sharp = {
        "normal": (stats.norm(), stats.norm(0, p**-0.5)),
        "gamma": (stats.gamma(3), stats.gamma(2 * p + 1, 0, 1 / p)),
        "beta": (stats.beta(3, 4), stats.beta(2 * p + 1, 3 * p + 1)),
    }[c["fam"]]
    n = c["n"]
    x0 = fam.ppf((np.arange(n) + 0.5) / n)
    k = 2 * c["smooth"] * c["bins"] if c["smooth"] else c["bins"]
    half = 0.5 * (x0.max() - x0.min()) / (k - 1)
    lo, hi = x0.min() + half, x0.max() - half  # the curve runs through bin centres
    x = c["loc"] + c["scale"] * gen.shuffled(x0, c["seed"])
    kw = {"statistics": gen.stat(c["stat"]), "summary_area": c["area"], "bins": c["bins"], "smooth": c["smooth"]}
    if p != 1.0:
        kw["power"] = p
    if c["kde"]:
        kw["kde"] = c["kde"]
    a = (arr(ctx, summary(frame(x, np.ones(n)), kw), c["stat"]) - c["loc"]) / c["scale"]
    flo, fhi = sharp.cdf(lo), sharp.cdf(hi)
    f = (sharp.cdf(np.clip(a, lo, hi)) - flo) / (fhi - flo)
    tol = 0.035
    if c["stat"] == "hdi":
        ctx.close(f[2] - f[0], c["area"], f"power {p}: probability of the interval {a} under the density to the power {p}", rtol=0, atol=tol)
    else:
        ctx.close(f[0], 0.5 - c["area"] / 2, f"power {p}: probability below the lower bound", rtol=0, atol=tol)
        ctx.close(f[2], 0.5 + c["area"] / 2, f"power {p}: probability below the upper bound", rtol=0, atol=tol)
    if c["stat"] == "cumulative":
        ctx.close(f[1], 0.5, f"power {p}: probability below the median", rtol=0, atol=tol)
    ctx.label(c["fam"], f"p={p}", "kde" if c["kde"] else "histogram")
    if p != 1.0:
        ctx.hit()


@facet(P, "grid", lambda: st.fixed_dictionaries({
    "sizes": st.lists(st.integers(6, 40), min_size=1, max_size=2), "seed": gen.seeds, "p": st.sampled_from([0.5, 2.0, 3.0]), "stat": st.sampled_from(gen.STATS),
    "area": st.sampled_from([0.3, 0.6827, 0.9]), "scale": st.sampled_from([1.0, 1e-3, 50.0]), "smooth": st.sampled_from([None, None, 1, 2])}), quick=80)
def power_grid(c, ctx):
    """A grid raised to a power against the grid whose marginal weights are that power."""
    rng = np.random.RandomState(c["seed"])
    axes = [c["scale"] * np.arange(s) for s in c["sizes"]]
    mean, w1 = [rng.uniform(0.2, 0.8) * (s - 1) for s in c["sizes"]], None
    h = np.exp(-0.5 * ((np.arange(c["sizes"][0]) - mean[0]) / (0.25 * c["sizes"][0])) ** 2) * rng.uniform(0.8, 1.2, c["sizes"][0])
    if len(axes) == 2:
        h = h[:, None] * rng.uniform(0.1, 1, c["sizes"])
    pts = np.stack([g.ravel() for g in np.meshgrid(*axes, indexing="ij")], axis=1)
    order = rng.permutation(len(pts))
    df = pd.DataFrame(pts[order], columns=["x", "y"][: len(axes)]).assign(weight=h.ravel()[order])
    w1 = h if h.ndim == 1 else h.sum(axis=1)
    kw = {"statistics": gen.stat(c["stat"]), "summary_area": c["area"], "grid": True}
    if c["smooth"] is not None:
        kw["smooth"] = c["smooth"]
    # the powers of the marginal density, not of the joint one
    a = summary(df, {**kw, "power": c["p"]})
    b = summary(frame(axes[0], (w1 / w1.max()) ** c["p"]), kw)
    a, b = [arr(ctx, v, c["stat"], constrained=c["stat"] != "max") for v in (a, b)]
    ctx.close(a, b, f"{c['stat']} of a grid to the power {c['p']}", rtol=0, atol=2e-3 * np.ptp(axes[0]))
    ctx.label(c["stat"], f"{len(axes)}D")
    ctx.hit()


@facet(P, "neutral", lambda: st.fixed_dictionaries({"m": marginal(n=(20, 800), bins=(8, 100), smooth=(0, 4)), "kde": st.sampled_from([False, False, 1.0])}), quick=80)
def power_neutral(c, ctx):
    """A power of one changes nothing."""
    m = c["m"]
    x, w = points(m)
    kw = settings_of(m)
    if c["kde"]:
        kw["kde"] = c["kde"]
    same_summary(ctx, summary(frame(x, w), kw), summary(frame(x, w), {**kw, "power": 1.0}), 1e-12 * np.ptp(x), "power=1.0")
    ctx.label(m["stat"])


# ------------------------------------------------------------------------------------------------ S09
P = prop(
    "S09",
    "weighted samples in one to three dimensions with random covariances and bandwidths, targets inside and far outside; summaries of "
    "KDE chains against a direct kernel sum. Non-trivial: at least ten kernels contribute somewhere.",
    ["kernels are truncated at a finite distance by design: an estimate may lie anywhere between the truncated and the full sum"],
)


@facet(P, "kernel", lambda: st.fixed_dictionaries({
    "dim": st.integers(1, 3), "n": st.integers(6, 250), "m": st.integers(1, 40), "seed": gen.seeds, "factor": st.sampled_from([1.0, 1.0, 0.3, 0.5, 2.0, 4]),
    "trunc": st.sampled_from([3.0, 3.0, 1.0, 2.0, 5.0]), "nmin": st.sampled_from([4, 4, 1, 2, 6]), "w": st.sampled_from([None, "real", "int", "wide"]),
    "aniso": st.sampled_from([1.0, 100.0, 1e4]),
}), quick=400)
def kernel(c, ctx):
    from chainconsumer.kde import MegKDE

    rng = np.random.RandomState(c["seed"])
    dim, n = c["dim"], c["n"]
    mix = rng.normal(size=(dim, dim)) + 2 * np.eye(dim)
    mix[0] *= c["aniso"]
    x = rng.normal(size=(n, dim)) @ mix.T + rng.normal(size=dim) * 5
    w = gen.make_weights(c["w"], n, rng)
    q = rng.normal(size=(c["m"], dim)) @ mix.T * rng.choice([0.5, 1.0, 3.0]) + x.mean(axis=0)
    ww = np.ones(n) if w is None else w
    if not np.linalg.cond(np.atleast_2d(np.cov(x.T, aweights=ww))) < 1e12:
        raise Excluded("degenerate covariance")
    flat = dim == 1 and rng.rand() < 0.7
    kw = {k: v for k, v, dflt in (("truncation", c["trunc"], 3.0), ("nmin", c["nmin"], 4), ("factor", c["factor"], 1.0)) if v != dflt}
    est = MegKDE(x[:, 0] if flat else x, w, **kw).evaluate(q[:, 0] if flat else q)
    with ctx.reading("estimate"):
        est = np.asarray(est, dtype=float)
        ctx.eq(est.shape, (c["m"],), "shape of the estimate")
    cov = np.atleast_2d(np.cov(x.T, aweights=ww))
    inv = np.linalg.inv(cov)
    sigma = 2.0 * c["factor"] * n ** (-1.0 / (4 + dim))
    dq = q[:, None, :] - x[None, :, :]
    d2 = np.einsum("ijk,kl,ijl->ij", dq, inv, dq)
    k = ww * np.exp(-0.5 * d2 / sigma**2)
    full = k.sum(axis=1)
    near = np.where(d2 <= (c["trunc"] * sigma) ** 2 * (1 - 1e-9), k, 0).sum(axis=1)
    # at least the nmin nearest kernels are always used
    o = np.sort(d2, axis=1)[:, c["nmin"] - 1]
    nearest = np.where(d2 < o[:, None] * (1 - 1e-9), k, 0).sum(axis=1)
    low = np.maximum(near, nearest)
    tol = 1e-6 * full
    ctx.check((est <= full + tol).all(), lambda: f"estimate {est[np.argmax(est - full)]} exceeds the sum over all kernels {full[np.argmax(est - full)]}")
    ctx.check((est >= low - tol).all(), lambda: f"estimate {est[np.argmin(est - low)]} below the sum over kernels within {c['trunc']} bandwidths {low[np.argmin(est - low)]}")
    if (near > 0).any() and (np.where(d2 <= (c["trunc"] * sigma) ** 2, 1, 0).sum(axis=1) >= 10).any():
        ctx.hit()
    ctx.label(f"dim {dim}", str(c["w"]))


@facet(P, "summary", lambda: st.fixed_dictionaries({
    "m": marginal(kinds=["random", "strat"], n=(60, 900), bins=(35, 120), smooth=(0, 4), weights=(None, "real", "int"), statistic=["cumulative", "mean", "max_central", "hdi", "max"]),
    "kde": st.sampled_from([True, 1.0, 0.3, 0.5, 1.5, 2]),
}), quick=220)
def kde_summary(c, ctx):
    m = c["m"]
    x, w = points(m)
    representative(x, w)
    a = arr(ctx, summary(frame(x, w), {**settings_of(m), "kde": c["kde"]}), f"{m['stat']} with kde={c['kde']}", constrained=m["stat"] != "max")
    k = ref.Kernel(x, w, float(c["kde"]), bins_of(m), smooth_of(m), m["stat"] == "hdi")
    xs, ys, cs = k.table(600)
    f = np.interp(a, xs, cs)
    tol = 0.012
    if m["stat"] in ("cumulative", "mean", "max_central"):
        ctx.close(f[0], 0.5 - m["area"] / 2, f"kde {m['stat']}: probability below the lower bound", rtol=0, atol=tol)
        ctx.close(f[2], 0.5 + m["area"] / 2, f"kde {m['stat']}: probability below the upper bound", rtol=0, atol=tol)
    if m["stat"] == "cumulative":
        ctx.close(f[1], 0.5, "kde cumulative: probability below the centre", rtol=0, atol=tol)
    if m["stat"] in ("max", "max_central"):
        ctx.check(np.interp(a[1], xs, ys) >= 0.97 * ys.max(), lambda: f"kde {m['stat']}: the centre {a[1]} is not at the highest density")
    if m["stat"] in ("max", "hdi") and not np.isnan(a).any():
        ctx.close(f[2] - f[0], m["area"], f"kde {m['stat']}: probability of the interval", rtol=0, atol=0.02)
        if m["stat"] == "hdi":
            j = np.searchsorted(cs, cs + m["area"])
            ok = j < len(xs)
            nar = (xs[np.minimum(j, len(xs) - 1)] - xs)[ok].min()
            ctx.check(abs(a[2] - a[0] - nar) <= 0.015 * k.r, lambda: f"kde hdi: width {a[2] - a[0]}, narrowest {nar}")
            ctx.close(f[1], 0.5 * (f[0] + f[2]), "kde hdi: share below the centre", rtol=0, atol=0.01)
    ctx.label(m["stat"], f"kde={c['kde']}")
    ctx.hit()


# ------------------------------------------------------------------------------------------------ S10
P = prop(
    "S10",
    "one- to three-dimensional uniform grids with random steps, offsets, grid point order and likelihood shapes; summaries against the "
    "piecewise linear density through the marginal weights. Non-trivial: at least 10 grid points in the parameter.",
)


@facet(P, "grid", lambda: st.fixed_dictionaries({
    "sizes": st.lists(st.integers(6, 60), min_size=1, max_size=3), "seed": gen.seeds, "stat": st.sampled_from(gen.STATS), "area": st.sampled_from(AREAS),
    "smooth": st.sampled_from([None, None, 0]), "step": st.sampled_from([1.0, 0.01, 25.0, 1e5, 1e-6]), "shape": st.sampled_from(["normal", "skew", "flat", "rough"]),
    "pw": st.sampled_from([None, None, 2.0]),
}), quick=250)
def grid(c, ctx):
    from chainconsumer import Chain, ChainConsumer

    rng = np.random.RandomState(c["seed"])
    sizes = c["sizes"]
    while np.prod(sizes) > 6000:
        sizes = [max(6, s // 2) for s in sizes]
    axes = [c["step"] * (rng.randint(-50, 50) + np.arange(s)) for s in sizes]
    mesh = [g.ravel() for g in np.meshgrid(*axes, indexing="ij")]
    u = [(np.arange(s) - s * rng.uniform(0.3, 0.7)) / (s * rng.uniform(0.12, 0.3)) for s in sizes]
    um = [g.ravel() for g in np.meshgrid(*u, indexing="ij")]
    ll = -0.5 * sum(v**2 for v in um)
    if len(um) > 1:
        ll = ll - 0.4 * um[0] * um[1]
    if c["shape"] == "skew":
        ll = ll + np.log1p(0.9 * np.tanh(um[0]))
    elif c["shape"] == "flat":
        ll = 0.2 * ll
    w = np.exp(ll - ll.max())
    if c["shape"] == "rough":
        w = w * rng.uniform(0.5, 1.5, size=len(w))
    w = w + 1e-12
    p = rng.permutation(len(w))
    df = pd.DataFrame({f"p{i}": g[p] for i, g in enumerate(mesh)})
    df["weight"] = w[p]
    kw = {"grid": True, "statistics": gen.stat(c["stat"]), "summary_area": c["area"]}
    if c["smooth"] is not None:
        kw["smooth"] = c["smooth"]
    if c["pw"]:
        kw["power"] = c["pw"]
    res = ChainConsumer().add_chain(Chain(samples=df, name="g", **kw)).analysis.get_summary()["g"]
    for i, s in enumerate(sizes):
        name = f"p{i}"
        a = arr(ctx, res[name], f"{c['stat']} summary of {name}", constrained=c["stat"] != "max")
        m = ref.Grid(df[name].to_numpy(), df["weight"].to_numpy(), c["pw"] or 1.0)
        xs, ys, cs = m.table()
        f = np.interp(a, xs, cs)
        if c["stat"] in ("cumulative", "mean", "max_central"):
            ctx.close(f[0], 0.5 - c["area"] / 2, f"grid {c['stat']}: probability below the lower bound of {name}", rtol=0, atol=0.003)
            ctx.close(f[2], 0.5 + c["area"] / 2, f"grid {c['stat']}: probability below the upper bound of {name}", rtol=0, atol=0.003)
        if c["stat"] == "cumulative":
            ctx.close(f[1], 0.5, f"grid: probability below the centre of {name}", rtol=0, atol=0.003)
        if c["stat"] in ("max", "max_central"):
            ctx.check(np.interp(a[1], xs, ys) >= 0.995 * ys.max(), lambda: f"grid: the centre {a[1]} of {name} is not the most likely grid value")
            ctx.check(np.abs(m.v - a[1]).min() <= 0.01 * m.h, lambda: f"grid: the most likely value {a[1]} of {name} is not a grid value")
        if c["stat"] in ("max", "hdi") and not np.isnan(a).any():
            ctx.close(f[2] - f[0], c["area"], f"grid {c['stat']}: probability of the interval of {name}", rtol=0, atol=0.006)
        if c["stat"] == "hdi":
            j = np.searchsorted(cs, cs + c["area"])
            ok = j < len(xs)
            nar = (xs[np.minimum(j, len(xs) - 1)] - xs)[ok].min()
            ctx.check(a[2] - a[0] <= nar + 0.003 * m.r, lambda: f"grid hdi of {name}: width {a[2] - a[0]}, narrowest {nar}")
        if s >= 10:
            ctx.hit()
    ctx.label(c["stat"], c["shape"], f"{len(sizes)}d")


# ------------------------------------------------------------------------------------------------ S11
P = prop(
    "S11",
    "the same chain alone, next to other chains with other settings, with extra columns, with reordered columns and renamed; random "
    "statistics, KDE, smoothing, powers. Non-trivial: at least one other chain or column is present.",
)


@facet(P, "isolated", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=10, max_n=400, min_cols=1, max_cols=3, extreme=True), "s": chain_settings(), "mm": st.booleans(),
    "others": st.lists(st.tuples(gen.frames(min_n=8, max_n=60), chain_settings()), max_size=2),
    "extra": st.sampled_from([0, 1, 2, 3, 6]), "order": gen.seeds, "before": st.booleans(), "overrides": st.booleans(),
}), quick=200)
def isolated(c, ctx):
    from chainconsumer import Chain, ChainConsumer, ChainConfig

    d, s = c["d"], c["s"]
    df = gen.build(d)
    par = gen.params(d, df)
    kw = {**gen.chain_kwargs(d), **kwargs_of(s)}
    if c["mm"] and s["stat"] == "hdi":
        kw["multimodal"] = True
    alone = ChainConsumer().add_chain(Chain(samples=df, name="me", **kw)).analysis.get_summary()["me"]
    rng = np.random.RandomState(c["order"])
    df2 = df.copy()
    for k in range(c["extra"]):
        df2[f"extra {k}"] = rng.normal(size=len(df)) * 10.0 ** rng.randint(-5, 6)
    df2 = df2[[df2.columns[i] for i in rng.permutation(len(df2.columns))]]
    cc = ChainConsumer()
    me = Chain(samples=df2, name="me", **kw)
    if c["before"]:
        cc.add_chain(me)
    for i, (od, os_) in enumerate(c["others"]):
        cc.add_chain(Chain(samples=gen.build(od), name=f"other {i}", **gen.chain_kwargs(od), **kwargs_of(os_)))
    if not c["before"]:
        cc.add_chain(me)
    if c["overrides"]:
        cc.set_override(ChainConfig(shade_alpha=0.3, linewidth=2.0))
    got = cc.analysis.get_summary()["me"]
    ctx.eq(set(got), set(par) | {f"extra {k}" for k in range(c["extra"])}, "parameters")
    for p in par:
        same_summary(ctx, alone[p], got[p], 1e-12 * np.ptp(df[p].to_numpy(float)), f"{s['stat']} summary of {p!r} in other company")
    if c["others"] or c["extra"]:
        ctx.hit()
    ctx.label(s["stat"], f"{len(c['others'])} others")
