"""V: what the figures show, read back from the matplotlib objects."""

from __future__ import annotations

import logging
import os
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fig as F
from .. import gen, ref
from ..core import Ctx, Excluded, facet, prop
from .summary import level_bands
from .tables import check_bound_text, read_bound  # noqa: F401

warnings.simplefilter("ignore")
logging.getLogger("chainconsumer").setLevel(logging.CRITICAL)

POOL = ["x", "y", "z", "$\\Omega_m$", "alpha", "q", "X", "n"]
CENTRE = {"x": 0.0, "y": 5.0, "z": -2.0, "$\\Omega_m$": 0.3, "alpha": 10.0, "q": -0.5, "X": 70.0, "n": 1.0}
SPREAD = {"x": 1.0, "y": 2.0, "z": 0.5, "$\\Omega_m$": 0.05, "alpha": 3.0, "q": 0.1, "X": 2.0, "n": 0.2}
COLOURS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd", "#ff7f0e", "#8c564b", "#17becf", "#7f7f7f"]
NAMES = ["A", "Model B", "$\\Lambda$ C", "d", "E-5", "a", "Zeta", "A B"]


# ------------------------------------------------------------------------------------------------ scenes
@st.composite
def scenes(draw, min_chains=1, max_chains=3, min_cols=2, max_cols=3, n=(40, 200), cloud=True, point=True, contour=None, weights=(None, "real"),
           kde=True, smooths=(None, None, 0, 1, 2), fams=("normal", "skew", "gamma3", "uniform"), full=None, stats=("max", "cumulative", "hdi"), lp=None, color_param=True, units=(1.0,), wide=None, pos=False, best=False):
    if wide and draw(st.sampled_from([False, False, False, False, True])):  # now and then many chains or parameters
        max_chains, max_cols = wide
    k = draw(st.integers(min_cols, max_cols))
    pool = POOL[:k]
    out = []
    unit = draw(st.sampled_from(list(units)))
    positive = pos and draw(st.booleans())
    all_first = draw(st.sampled_from([True, True, True, False]))  # the first chain has every parameter
    order = draw(st.permutations(pool)) if draw(st.booleans()) else pool
    for i in range(draw(st.integers(min_chains, max_chains))):
        cols = list(order) if (full or (i == 0 and all_first) or draw(st.booleans())) else draw(st.lists(st.sampled_from(pool), min_size=1, max_size=k, unique=True))
        c = {
            "cols": cols, "unit": unit, "n": draw(st.integers(*n)), "seed": draw(gen.seeds), "fam": draw(st.sampled_from(list(fams))), "w": draw(st.sampled_from(list(weights))),
            "lp": draw(st.booleans()) if lp is None else lp,
            "smooth": draw(st.sampled_from(list(smooths))), "kde": draw(st.sampled_from([None, None, None, 1.0])) if kde else None,
            "contour": draw(st.sampled_from([True, True, True, False])) if contour is None else contour,
            "cloud": draw(st.sampled_from([False, False, True])) if cloud else False, "point": draw(st.sampled_from([False, False, True])) if point else False,
            "shade": draw(st.booleans()), "stat": draw(st.sampled_from(list(stats))), "area": draw(st.sampled_from([0.5, 0.6827, 0.9])),
            "zorder": draw(st.sampled_from([10, 10, 7, 20])), "cp": None, "pos": positive,
        }
        if best and i and draw(st.sampled_from([False, False, True])):  # nothing but the best point
            c.update(lp=True, point=True, contour=False, cloud=False)
        if color_param and c["cloud"]:
            c["cp"] = draw(st.sampled_from([None, None, "extra", "weight", "log_posterior"]))
            if c["cp"] == "log_posterior":
                c["lp"] = True
        out.append(c)
    return out


def scene_frame(c, i=0):
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    data = {}
    g = rng.normal(size=n)
    from scipy.special import ndtr

    for p in c["cols"]:
        u = ndtr(0.5 * g + np.sqrt(0.75) * rng.normal(size=n))
        q = gen.FAMS[c["fam"]].ppf(np.clip(u, 1e-6, 1 - 1e-6))
        data[p] = (SPREAD[p] * np.exp(0.6 * q + 0.2 * i) if c.get("pos") else CENTRE[p] + SPREAD[p] * (q + 0.4 * i)) * c.get("unit", 1.0)
    if c["cp"] == "extra":
        data["extra"] = rng.uniform(size=n) * 10
    w = gen.make_weights(c["w"], n, rng)
    if w is not None:
        data["weight"] = w
    if c["lp"]:
        data["log_posterior"] = rng.normal(size=n) * 3 - 20
    df = pd.DataFrame(data)
    df.index = gen.build_index(["range", "shuffled", "offset"][c["seed"] % 3], n, rng)
    return df


def chain_of(c, i=0, **more):
    from chainconsumer import Chain

    df = scene_frame(c, i)
    kw = dict(name=NAMES[i], color=COLOURS[i], plot_contour=c["contour"], plot_cloud=c["cloud"], plot_point=c["point"], shade=c["shade"],
              statistics=gen.stat(c["stat"]), summary_area=c["area"], zorder=c["zorder"])
    if c["smooth"] is not None:
        kw["smooth"] = c["smooth"]
    if c["kde"]:
        kw.update(kde=c["kde"], bins=10)  # the cost of a 2D KDE grows with the square of the bins
    if c["cp"]:
        kw["color_param"] = c["cp"]
    kw.update(more)
    return Chain(samples=df, **kw), df


def consumer(scene, cfg=None, truths=(), more=None):
    from chainconsumer import ChainConsumer, PlotConfig, Truth

    cc = ChainConsumer()
    info = []
    for i, c in enumerate(scene):
        ch, df = chain_of(c, i, **(more or {}))
        cc.add_chain(ch)
        info.append((ch, df, c))
    for t in truths:
        cc.add_truth(Truth(**t))
    if cfg:
        cc.set_plot_config(PlotConfig(**cfg))
    return cc, info


def drawn(info):
    return [x for x in info if x[2]["contour"] or x[2]["cloud"] or x[2]["point"]]


def params_of(c) -> list[str]:
    """Parameters a chain contributes to plots."""
    return list(c["cols"]) + (["extra"] if c["cp"] == "extra" and not c["cloud"] else [])


def union(info) -> list[str]:
    out = []
    for _, df, c in info:
        names = [p for p in df.columns if p in params_of(c)]
        out += [p for p in names if p not in out]
    return out


def panels(ctx, fig, cols, hists=True):
    """[(axes, column parameter, row parameter, i, j)] of the lower triangle, and the axes above it."""
    m = len(cols) if hists else len(cols) - 1
    with ctx.reading("panels"):
        axes = [ax for ax in fig.axes if not hasattr(ax, "_colorbar")]
        ctx.check(len(axes) == m * m, lambda: f"{len(axes)} panels for {len(cols)} parameters")
        g = [axes[i * m:(i + 1) * m] for i in range(m)]
        rows, columns = (cols, cols) if hists else (cols[1:], cols[:-1])
        low = [(g[i][j], columns[j], rows[i], i, j) for i in range(m) for j in range(i + 1)]
        up = [g[i][j] for i in range(m) for j in range(i + 1, m)]
        # the geometry agrees with the reading order
        for i in range(m):
            for j in range(m):
                b = g[i][j].get_position()
                ctx.check(j == 0 or b.x0 > g[i][j - 1].get_position().x0, "panels are not ordered from left to right")
                ctx.check(i == 0 or b.y0 < g[i - 1][j].get_position().y0, "panels are not ordered from top to bottom")
    return low, up


def curves(ax) -> list[tuple[np.ndarray, np.ndarray, str]]:
    """1D densities drawn on an axis: (x, y, colour), for step histograms the outline."""
    from matplotlib.patches import Polygon

    out = []
    for ln in F.lines(ax):
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if len(x) > 2:
            out.append((x, y, F.hexof(ln.get_color())))
    for p in ax.patches:
        if isinstance(p, Polygon):
            xy = p.get_xy()
            out.append((xy[:, 0], xy[:, 1], F.hexof(p.get_edgecolor())))
    return out


def needs_range(sel, cols, ext=()):
    """A parameter needs something that spans a range, or a configured extent, to have an axis."""
    for p in cols:
        if p not in ext and not any(has(x[2], p) and (x[2]["contour"] or x[2]["cloud"]) for x in sel):
            raise Excluded("a parameter with nothing but points")


def has(c, p):
    return p in params_of(c)


def same_rows(got: np.ndarray, pool: np.ndarray) -> np.ndarray:
    """For each row of `got`, whether it is a row of `pool`."""
    s = {tuple(r) for r in np.round(pool, 12).tolist()}
    return np.array([tuple(r) in s for r in np.round(got, 12).tolist()])


# ------------------------------------------------------------------------------------------------ V01
P = prop(
    "V01",
    "scenes of one to three chains with partly overlapping parameters, contours, clouds, points, smoothing, KDE and shading switched at "
    "random, selections of chains and columns, with and without histograms; panels, labels and artists are counted. Non-trivial: at least "
    "one panel with content below the diagonal.",
)


def selection(info, ask, rng):
    """kwargs, chains shown, columns shown"""
    base = drawn(info)
    kw, sel = {}, base
    if ask in ("chains", "names", "both"):
        order = rng.permutation(len(info))[: 1 + rng.randint(len(info))]
        pick = [info[i] for i in order]
        kw["chains"] = [x[0].name if ask == "names" else x[0] for x in pick]
        sel = drawn(pick)
    cols = union(sel)
    if ask in ("columns", "both") and len(cols) > 2:
        cols = [cols[i] for i in rng.permutation(len(cols))[: 2 + rng.randint(len(cols) - 1)]]
        kw["columns"] = cols
    return kw, sel, cols


@facet(P, "panels", lambda: st.fixed_dictionaries({
    "s": scenes(max_cols=4, wide=(7, 5)), "ask": st.sampled_from(["all", "all", "chains", "names", "columns", "both"]), "seed": gen.seeds,
    "hists": st.sampled_from([True, True, False]), "flip": st.booleans(), "labels": st.booleans(), "ticks": st.booleans(),
}), quick=110, thorough=3000)
def structure(c, ctx):
    labels = {p: f"Label {k}" for k, p in enumerate(POOL)} if c["labels"] else {}
    cc, info = consumer(c["s"], {"plot_hists": c["hists"], "flip": c["flip"], "labels": labels, "diagonal_tick_labels": c["ticks"]})
    kw, sel, cols = selection(info, c["ask"], np.random.RandomState(c["seed"]))
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    fig = cc.plotter.plot(**kw)
    low, up = panels(ctx, fig, cols, c["hists"])
    m = len(cols) - (not c["hists"])
    for ax in up:
        ctx.check(not curves(ax) and not F.contour_sets(ax) and not F.scatters(ax) and not F.fills(ax), "something is drawn above the diagonal")
        ctx.check(not F.visible_tick_labels(ax, "x") and not F.visible_tick_labels(ax, "y"), "an unused panel shows ticks")
    for ax, px, py, i, j in low:
        what = f"panel {px!r}, {py!r}"
        if px == py:
            want = [F.hexof(x[0].color) for x in sel if x[2]["contour"] and has(x[2], px)]
            got = [cv[2] for cv in curves(ax)]
            ctx.eq(sorted(got), sorted(want), f"{what}: curves by colour")
            ctx.check(not F.contour_sets(ax) and not F.scatters(ax), lambda: f"{what}: 2D content on the diagonal")
        else:
            both = [x for x in sel if has(x[2], px) and has(x[2], py)]
            sets = sum(1 + x[2]["shade"] for x in both if x[2]["contour"])
            ctx.eq(len(F.contour_sets(ax)), sets, f"{what}: contour sets")
            ctx.eq(sum(s.filled for s in F.contour_sets(ax)), sum(x[2]["shade"] for x in both if x[2]["contour"]), f"{what}: filled contour sets")
            pts = [x for x in both if x[2]["point"] and x[2]["lp"]]
            ctx.eq(len(F.scatters(ax)), len(pts) + sum(x[2]["cloud"] for x in both), f"{what}: clouds and points")
            ctx.check(not curves(ax), lambda: f"{what}: a 1D curve off the diagonal")
            if both:
                ctx.hit()
        flipped = c["flip"] and c["hists"] and len(cols) == 2
        if i == m - 1 and not (flipped and j == m - 1):
            ctx.check(ax.get_xlabel().strip() == labels.get(px, px), lambda: f"{what}: x label {ax.get_xlabel()!r}")
        else:
            ctx.check(flipped or not ax.get_xlabel().strip(), lambda: f"{what}: x label {ax.get_xlabel()!r} inside the triangle")
            ctx.check(not F.visible_tick_labels(ax, "x"), lambda: f"{what}: x tick labels inside the triangle")
        if j == 0 and (i > 0 or not c["hists"]):
            ctx.check(ax.get_ylabel().strip() == labels.get(py, py), lambda: f"{what}: y label {ax.get_ylabel()!r}")
        else:
            ctx.check(not ax.get_ylabel().strip(), lambda: f"{what}: y label {ax.get_ylabel()!r} inside the triangle")
            ctx.check(not F.visible_tick_labels(ax, "y"), lambda: f"{what}: y tick labels inside the triangle")
    n_cb = len({x[2]["cp"] for x in sel if x[2]["cp"] and x[2]["cloud"]})
    ctx.label(c["ask"], f"{len(sel)} chains", f"{len(cols)} columns", f"{n_cb} colour bars")


# ------------------------------------------------------------------------------------------------ V02
P = prop(
    "V02",
    "scenes of one to three chains, configured and automatic extents, logarithmic axes, chains that show only their best point; the limits "
    "of every panel of triangle, distribution, walk and summary plots are read back. Non-trivial: an automatic extent was judged.",
    ["samples whose lowest of 2000 raw bins holds more than 2% of the mass are recorded as a finding and left out here"],
)


def covers(ctx, what, lo, hi, chains, p, loose=3e-4, lowest=True):
    """The limits hold all but a negligible part of each chain's mass and do not extend past the data."""
    dmin, dmax = np.inf, -np.inf
    for ch, df, c in chains:
        if not has(c, p):
            continue
        x, w = df[p].to_numpy(float), (df["weight"].to_numpy() if c["w"] else np.ones(len(df)))
        if c["contour"] or c["cloud"]:
            r = np.ptp(x)
            h, _ = np.histogram(x, weights=w, bins=2000)
            first = h[0] / h.sum()
            if lowest and first > 0.02:
                raise Excluded("more than 2% of the mass in the lowest raw bin (recorded finding)")
            below, above = w[x < lo - r / 900].sum() / w.sum(), w[x > hi + r / 900].sum() / w.sum()
            ctx.check(below <= loose + (first if lowest else 0), lambda: f"{what}: {below:.4f} of the mass of chain {ch.name!r} lies below the lower limit {lo}")
            ctx.check(above <= loose, lambda: f"{what}: {above:.4f} of the mass of chain {ch.name!r} lies above the upper limit {hi}")
            dmin, dmax = min(dmin, x.min()), max(dmax, x.max())
        elif c["lp"]:
            v = x[int(np.argmax(df["log_posterior"].to_numpy()))]
            ctx.check(lo <= v <= hi, lambda: f"{what}: the best point {v} of chain {ch.name!r} is outside {lo} .. {hi}")
            dmin, dmax = min(dmin, v), max(dmax, v)
    eps = 1e-9 * max(1.0, abs(dmin), abs(dmax))
    ctx.check(lo >= dmin - eps and hi <= dmax + eps, lambda: f"{what}: limits {lo} .. {hi} extend past the data {dmin} .. {dmax}")


def configured(p, kind):
    """An extent for a parameter; one of its ends may be zero, or the parameter a small part of it."""
    lo, hi = CENTRE[p] - 1.7 * SPREAD[p], CENTRE[p] + 2.9 * SPREAD[p]
    return {"near": (lo, hi), "zero": (0.0, hi) if hi > 0 else (lo, 0.0), "to zero": (lo, 0.0) if lo < 0 else (0.0, hi), "wide": (-300, 300), "inside": (CENTRE[p] - 0.4 * SPREAD[p], CENTRE[p] + 0.2 * SPREAD[p])}[kind]


KINDS = ["near", "near", "zero", "to zero", "wide", "inside"]


@facet(P, "triangle", lambda: st.fixed_dictionaries({
    "s": scenes(kde=False, smooths=(None, 0), wide=(6, 4), pos=True, best=True), "fix": st.lists(st.integers(0, 3), max_size=3, unique=True), "kind": st.sampled_from(KINDS), "log": st.lists(st.integers(0, 3), max_size=3, unique=True),
    "hists": st.sampled_from([True, True, False]), "flip": st.booleans(), "plain": st.booleans(),
}), quick=90, thorough=2500)
def tri_extents(c, ctx):
    s = c["s"]
    cc, info = consumer(s, {})
    sel = drawn(info)
    cols = union(sel)
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    ext = {cols[k]: configured(cols[k], c["kind"]) for k in c["fix"] if k < len(cols)}
    needs_range(sel, cols, ext)
    logs = [cols[k] for k in c["log"] if k < len(cols)] if not c["plain"] else []
    if any(df[p].min() <= 0 for _, df, cfg in sel for p in logs if p in df):
        logs = [p for p in logs if all((p not in df) or df[p].min() > 0 for _, df, _ in sel)]
    for p in logs:
        if p in ext:
            ext[p] = (SPREAD[p] * 0.5, SPREAD[p] * 9)
    from chainconsumer import PlotConfig

    cc.set_plot_config(PlotConfig(extents=ext, log_scales=logs, plot_hists=c["hists"], flip=c["flip"]))
    fig = cc.plotter.plot()
    low, _ = panels(ctx, fig, cols, c["hists"])
    seen: dict[str, tuple] = {}
    flipped = c["flip"] and c["hists"] and len(cols) == 2
    for ax, px, py, i, j in low:
        for which, p in (("x", px), ("y", py)):
            if px == py and which == ("x" if (flipped and i == 1) else "y"):
                a, b = ax.get_xlim() if which == "x" else ax.get_ylim()
                ctx.check((a == 0 and b > 0) or not any(x[2]["contour"] and has(x[2], px) for x in sel), lambda: f"the density axis of {p!r} runs from {a} to {b}")
                continue
            lim = ax.get_xlim() if which == "x" else ax.get_ylim()
            what = f"{which} axis of panel {px!r}, {py!r}"
            ctx.eq(ax.get_xscale() if which == "x" else ax.get_yscale(), "log" if p in logs else "linear", f"{what}: scale")
            ctx.check(seen.setdefault(p, lim) == lim, lambda: f"{what}: limits {lim} differ from {seen[p]} in another panel")
            if p in ext:
                ctx.check(tuple(lim) == tuple(ext[p]), lambda: f"{what}: limits {lim} instead of the configured {ext[p]}")
            else:
                covers(ctx, what, *lim, sel, p)
                ctx.hit()
    ctx.label(f"{len(ext)} fixed", f"{len(logs)} log", "flip" if flipped else "no flip")


@facet(P, "other_plots", lambda: st.fixed_dictionaries({
    "s": scenes(kde=False, smooths=(None, 0), cloud=False, point=False, contour=True, wide=(6, 8), pos=True), "fix": st.lists(st.integers(0, 7), max_size=4, unique=True), "kind": st.sampled_from(KINDS),
    "plot": st.sampled_from(["distributions", "walks", "summary", "summary", "errorbar"]), "log": st.lists(st.integers(0, 3), max_size=3, unique=True),
}), quick=80, thorough=2000)
def other_extents(c, ctx):
    cc, info = consumer(c["s"], {})
    cols = union(info)
    ext = {cols[k]: configured(cols[k], c["kind"]) for k in c["fix"] if k < len(cols)}
    from chainconsumer import PlotConfig

    logs = [cols[k] for k in c["log"] if k < len(cols)]
    logs = [p for p in logs if all((p not in df) or df[p].min() > 0 for _, df, _ in info)]
    for p in logs:
        if p in ext:
            ext[p] = (SPREAD[p] * 0.5, SPREAD[p] * 9)
    cc.set_plot_config(PlotConfig(extents=ext, log_scales=logs))
    if c["plot"] == "distributions":
        fig = cc.plotter.plot_distributions()
        axes = [(p, fig.axes[k], "x") for k, p in enumerate(cols)]
    elif c["plot"] == "walks":
        fig = cc.plotter.plot_walks(plot_weights=False, plot_posterior=False)
        axes = [(p, fig.axes[k], "y") for k, p in enumerate(cols)]
    else:
        fig = cc.plotter.plot_summary(errorbar=c["plot"] == "errorbar")
        k = 1 + len(cols)
        axes = [(p, fig.axes[i * k + 1 + j], "x") for i in range(len(info)) for j, p in enumerate(cols)]
    seen: dict[str, tuple] = {}
    for p, ax, which in axes:
        lim = ax.get_xlim() if which == "x" else ax.get_ylim()
        ctx.eq(ax.get_xscale() if which == "x" else ax.get_yscale(), "log" if p in logs else "linear", f"{c['plot']}: scale of {p!r}")
        ctx.check(seen.setdefault(p, lim) == lim, lambda: f"{c['plot']}: limits of {p!r} {lim} differ from {seen[p]} in another panel")
        if p in ext:
            ctx.check(tuple(lim) == tuple(ext[p]), lambda: f"{c['plot']}: limits of {p!r} {lim} instead of {ext[p]}")
            ctx.hit()
        elif c["plot"] != "errorbar":  # error bars are shown on a narrower range
            covers(ctx, f"{c['plot']}: {p!r}", *lim, info, p)
            ctx.hit()
    ctx.label(c["plot"])


@facet(P, "grids", lambda: st.fixed_dictionaries({
    "k": st.lists(st.integers(3, 14), min_size=2, max_size=3), "seed": gen.seeds, "lo": st.sampled_from([-3.0, 0.0, 50.0, -1e-7]), "step": st.sampled_from([0.25, 1.0, 1e-8]), "tail": st.sampled_from([0.3, 5.0, 40.0]),
    "other": st.booleans(), "plot": st.sampled_from(["triangle", "distributions", "walks", "summary"]),
}), quick=40, thorough=1000)
def grid_extents(c, ctx):
    """The axis of a grid is the grid, whatever the weights in its outskirts; next to another chain it holds both."""
    from chainconsumer import Chain, ChainConsumer

    rng = np.random.RandomState(c["seed"])
    cols = ["x", "y", "z"][:len(c["k"])]
    axes = [c["lo"] + c["step"] * np.arange(k) for k in c["k"]]
    mesh = [m.ravel() for m in np.meshgrid(*axes, indexing="ij")]
    u = [(m - a[0]) / (a[-1] - a[0]) - rng.uniform(0.3, 0.7) for m, a in zip(mesh, axes)]
    df = pd.DataFrame(dict(zip(cols, mesh)) | {"weight": np.exp(-c["tail"] * sum(v * v for v in u))})
    df = df.iloc[rng.permutation(len(df))]
    cc = ChainConsumer().add_chain(Chain(samples=df, name="A", grid=True))
    want = {p: [a[0], a[-1]] for p, a in zip(cols, axes)}
    if c["other"]:
        o = pd.DataFrame({p: (a[0] + a[-1]) / 2 + (a[-1] - a[0]) * rng.normal(size=60) for p, a in zip(cols, axes)})
        cc.add_chain(Chain(samples=o, name="B", smooth=0))
        info = [(None, df, {"cols": cols, "contour": False, "cloud": False, "lp": False, "w": "x", "cp": None}), (cc.get_chain("B"), o, {"cols": cols, "contour": True, "cloud": False, "lp": False, "w": None, "cp": None})]
    if c["plot"] == "triangle":
        low, _ = panels(ctx, cc.plotter.plot(), cols)
        lims = [(px, ax.get_xlim()) for ax, px, py, i, j in low] + [(py, ax.get_ylim()) for ax, px, py, i, j in low if px != py]
    elif c["plot"] == "summary":
        axs = cc.plotter.plot_summary().axes
        lims = [(p, axs[1 + j].get_xlim()) for j, p in enumerate(cols)]
    elif c["plot"] == "distributions":
        lims = [(p, ax.get_xlim()) for p, ax in zip(cols, cc.plotter.plot_distributions().axes)]
    else:
        lims = [(p, ax.get_ylim()) for p, ax in zip(cols, cc.plotter.plot_walks(plot_weights=False, plot_posterior=False).axes)]
    for p, lim in lims:
        a, b = want[p]
        what, tol = f"{c['plot']}: {p!r}", 1e-6 * (b - a)
        if c["other"]:
            ctx.check(lim[0] <= a + tol and lim[1] >= b - tol, lambda: f"{what}: the limits {lim} cut the grid from {a} to {b}")
            d = info[1][1][p]
            ctx.check(lim[0] >= min(a, d.min()) - tol and lim[1] <= max(b, d.max()) + tol, lambda: f"{what}: the limits {lim} extend past the data")
        else:
            ctx.close(lim, [a, b], f"{what}: limits of a grid", rtol=0, atol=tol)
        ctx.hit()
    ctx.label(c["plot"], "two chains" if c["other"] else "alone")


@facet(P, "single values", lambda: st.fixed_dictionaries({
    "v": st.sampled_from([0.0, 3.0, -70.1, 1e-8, 2e5]), "n": st.integers(2, 400), "seed": gen.seeds, "plot": st.sampled_from(["triangle", "distributions", "walks", "summary", "errorbar"]),
    "smooth": st.sampled_from([None, 0, 2]), "cloud": st.booleans(), "contour": st.booleans(), "stat": st.sampled_from(gen.STATS), "w": st.sampled_from([None, "real"]), "all": st.booleans(),
}), quick=40, thorough=800)
def single_values(c, ctx):
    """A parameter that never moves still gets an axis: of finite width, around its value."""
    from chainconsumer import Chain, ChainConsumer

    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    df = pd.DataFrame({"x": np.full(n, c["v"]) if c["all"] else rng.normal(size=n), "y": np.full(n, c["v"])})
    w = gen.make_weights(c["w"], n, rng)
    if w is not None:
        df["weight"] = w
    kw = {} if c["smooth"] is None else {"smooth": c["smooth"]}
    cc = ChainConsumer().add_chain(Chain(samples=df, name="A", statistics=gen.stat(c["stat"]), plot_cloud=c["cloud"] or not c["contour"], plot_contour=c["contour"], **kw))
    fig = {"triangle": cc.plotter.plot, "distributions": cc.plotter.plot_distributions, "walks": lambda: cc.plotter.plot_walks(plot_weights=False, plot_posterior=False),
           "summary": cc.plotter.plot_summary, "errorbar": lambda: cc.plotter.plot_summary(errorbar=True)}[c["plot"]]()
    ax, which = {"triangle": (fig.axes[-1], "x"), "distributions": (fig.axes[1], "x"), "walks": (fig.axes[1], "y")}.get(c["plot"], (fig.axes[2 % len(fig.axes)], "x"))
    if c["plot"] in ("summary", "errorbar"):
        ax = fig.axes[-1]
    lo, hi = ax.get_xlim() if which == "x" else ax.get_ylim()
    v = df["y"].to_numpy()
    tiny = 1e-9 * max(1.0, abs(c["v"]))
    ctx.check(np.isfinite([lo, hi]).all() and lo < hi, lambda: f"{c['plot']}: the axis of a parameter that is always {c['v']} runs from {lo} to {hi}")
    ctx.check(lo <= v.min() + tiny and v.max() - tiny <= hi, lambda: f"{c['plot']}: a parameter that is always {c['v']} is off its axis, which runs from {lo} to {hi}")
    ctx.check(hi - lo <= 1.5, lambda: f"{c['plot']}: the axis of a parameter that is always {c['v']} is {hi - lo} wide")
    ctx.label(c["plot"])
    ctx.hit()


@facet(P, "lowest_value", lambda: st.fixed_dictionaries({"values": st.lists(st.integers(0, 9), min_size=20, max_size=200)}), quick=0)
def lowest_value(c, ctx):
    """Coverage without exceptions; only run for the recorded finding."""
    from chainconsumer import Chain, ChainConsumer

    x = np.array(c["values"], dtype=float)
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({"x": x}), name="A"))
    lo, hi = cc.plotter.plot_distributions().axes[0].get_xlim()
    r = np.ptp(x)
    below = (x < lo - r / 900).mean()
    ctx.check(below <= 3e-4, lambda: f"{below:.3f} of the samples lie below the lower limit {lo} of the axis")


# ------------------------------------------------------------------------------------------------ V03
P = prop(
    "V03",
    "correlated, skewed and shifted two-parameter samples with weights, bins, smoothing, KDE, sigma lists and both level conventions; the "
    "mass of the (blurred) sample inside each drawn contour. Non-trivial: a closed contour was judged.",
    ["the blur applied by the smoothing or the kernel is applied to the sample before counting"],
)


def inside(path, pts) -> np.ndarray:
    """Even-odd rule over all polygons of a path."""
    from matplotlib.path import Path

    out = np.zeros(len(pts), bool)
    for poly in path.to_polygons(closed_only=False):
        if len(poly) > 2:
            out ^= Path(poly).contains_points(pts)
    return out


def level_of(s, two_d):
    from scipy.stats import norm

    return 1 - np.exp(-0.5 * s * s) if two_d else 2 * norm.cdf(s) - 1


@st.composite
def pairs(draw):
    d = {
        "n": draw(st.integers(2500, 5000)), "seed": draw(gen.seeds), "rho": draw(st.sampled_from([0.0, 0.6, -0.8, 0.3])), "shape": draw(st.sampled_from(["normal", "banana", "skew", "two"])),
        "w": draw(st.sampled_from([None, "real", "int"])), "wscale": draw(st.sampled_from([0, 0, -60, 40, -200])), "bins": draw(st.sampled_from([None, 30, 45])),
        "smooth": draw(st.sampled_from([None, 1, 2, 4, 6, 8])), "kde": draw(st.sampled_from([None, None, None, 0.5, 1.0])),
        "sigmas": draw(st.sampled_from([None, [0, 1, 2], [0, 1], [0, 0.5, 1.5], [1, 2], [0, 1, 2, 2.5], [0, 1.2]])), "two_d": draw(st.booleans()),
        "scale": draw(st.sampled_from([1.0, 1e-4, 1e5])), "order": draw(st.booleans()), "power": draw(st.sampled_from([None, None, None, 2.0, 0.5])), "shade": draw(st.booleans()),
        "labels": draw(st.booleans()),
    }
    if d["kde"]:
        d["bins"] = 12  # the cost of a 2D KDE grows with the square of the bins
    return d


def pair_points(c):
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    a, b = rng.normal(size=n), rng.normal(size=n)
    x, y = a, c["rho"] * a + np.sqrt(1 - c["rho"] ** 2) * b
    if c["shape"] == "banana":
        y = y + 0.4 * x**2
    elif c["shape"] == "skew":
        x = np.exp(0.35 * x)
    elif c["shape"] == "two":
        x = x + 9.0 * (rng.uniform(size=n) < 0.4)
    w = gen.make_weights(c["w"], n, rng)
    w = (np.ones(n) if w is None else w) * 2.0 ** c["wscale"]
    return c["scale"] * x, 50 + y, w, rng


def check_contours(ctx, c, sets, x, y, w, rng, swap=False):
    """Every level line and every filled band encloses its share of the blurred sample."""
    from numpy.linalg import cholesky

    lv = sorted({level_of(s, c["two_d"]) for s in (c["sigmas"] or [0, 1, 2])})
    reps = 4
    if c["kde"]:
        cov = np.cov(np.stack([x, y]), aweights=w)
        sig = 2 * c["kde"] * len(x) ** (-1 / 6)
        # kernels truncated at one bandwidth: draw from the truncated kernel
        z = []
        while sum(map(len, z)) < reps * len(x):
            t = rng.normal(size=(reps * len(x), 2))
            z.append(t[(t**2).sum(1) < 1])
        jit = sig * np.concatenate(z)[: reps * len(x)] @ cholesky(cov).T
    else:
        bins, sm = c["bins"] or 35, 3 if c["smooth"] is None else c["smooth"]
        n = 2 * sm * bins
        h = np.array([np.subtract(*ref.extent(v, w)[::-1]) / (n - 1) for v in (x, y)])
        jit = rng.normal(size=(reps * len(x), 2)) * np.hypot(sm, 0.41) * h
    pts = np.tile(np.stack([x, y], 1), (reps, 1)) + jit
    ww = np.tile(w, reps)
    if swap:
        pts = pts[:, ::-1]
    judged = 0
    for cs in sets:
        with ctx.reading("contour levels"):
            levels = np.asarray(cs.levels, float)
            ctx.check(len(levels) == len(lv) and np.allclose(levels, lv, atol=1e-9), lambda: f"contour levels {levels.tolist()} instead of {lv}")
            paths = cs.get_paths()
        if cs.filled:
            tot = np.zeros(len(pts), bool)
            for k, path in enumerate(paths):
                got = ww[inside(path, pts)].sum() / ww.sum()
                ctx.close(got, lv[k + 1] - lv[k], f"mass between the levels {lv[k]:.3f} and {lv[k + 1]:.3f}", rtol=0, atol=0.05)
                judged += 1
        else:
            for k, path in enumerate(paths):
                if lv[k] == 0 or c.get("labels"):  # labels interrupt the lines
                    continue
                if any(np.abs(q[0] - q[-1]).max() > 0 for q in path.to_polygons(closed_only=False)):
                    continue  # leaves the region covered by the grid: no inside
                got = ww[inside(path, pts)].sum() / ww.sum()
                ctx.close(got, lv[k], f"mass inside the contour of level {lv[k]:.3f}", rtol=0, atol=0.04)
                judged += 1
    return judged


@facet(P, "mass", pairs, quick=90, thorough=3000)
def contour_mass(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    x, y, w, rng = pair_points(c)
    kw = {"shade": c["shade"], "show_contour_labels": c["labels"]}
    for k, v in (("bins", c["bins"]), ("smooth", c["smooth"]), ("kde", c["kde"]), ("sigmas", c["sigmas"])):
        if v is not None:
            kw[k] = v
    df = pd.DataFrame({"x": x, "y": y, "weight": w} if c["order"] else {"y": y, "weight": w, "x": x})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="A", **kw))
    cc.set_plot_config(PlotConfig(sigma2d=c["two_d"], plot_hists=False))
    cols = ["x", "y"] if c["order"] else ["y", "x"]
    fig = cc.plotter.plot(columns=cols)
    low, _ = panels(ctx, fig, cols, False)
    ax = low[0][0]
    n = check_contours(ctx, c, F.contour_sets(ax), x, y, w, rng, swap=not c["order"])
    lv = sorted({level_of(s, c["two_d"]) for s in (c["sigmas"] or [0, 1, 2])})
    if c["labels"]:
        want = {f"{v:0.0%}" if v < 0.991 else f"{v:0.1%}" for v in lv if v}
        got = {t.get_text().strip() for t in ax.texts}
        ctx.check(got <= want, lambda: f"contour labels {got}, levels {want}")
    else:
        ctx.check(not ax.texts, "contour labels although they are switched off")
    if n:
        ctx.hit()
    ctx.label(c["shape"], "kde" if c["kde"] else "histogram", "2d" if c["two_d"] else "1d")


@facet(P, "grid", lambda: st.fixed_dictionaries({
    "nx": st.integers(6, 30), "ny": st.integers(6, 30), "seed": gen.seeds, "shape": st.sampled_from(["normal", "normal", "two", "wide", "plateau"]), "rho": st.sampled_from([0.0, 0.5, -0.7]),
    "sigmas": st.sampled_from([None, [0, 1], [0, 3], [1, 2, 3], [0.5, 4], [0, 2, 3.5]]), "two_d": st.booleans(), "power": st.sampled_from([None, None, 2.0, 0.5]), "smooth": st.sampled_from([None, None, 0, 1, 2]),
    "scale": st.sampled_from([1.0, 1e-5, 1e6]), "wscale": st.sampled_from([0, -60, 90]), "shuffle": st.booleans(), "shade": st.booleans(),
}), quick=150, thorough=5000)
def contour_grid(c, ctx):
    """On a grid of weights the contours are exactly the level lines of the enclosed mass."""
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from scipy.ndimage import gaussian_filter

    rng = np.random.RandomState(c["seed"])
    gx = c["scale"] * (3 + np.linspace(-4, 4, c["nx"]))
    gy = np.linspace(-9, -1, c["ny"])
    u, v = np.meshgrid(np.linspace(-4, 4, c["nx"]) - rng.uniform(-1, 1), np.linspace(-4, 4, c["ny"]) - rng.uniform(-1, 1), indexing="ij")
    s1, s2 = rng.uniform(0.6, 1.6, 2)
    q = ((u / s1) ** 2 + (v / s2) ** 2 - 2 * c["rho"] * u * v / s1 / s2) / (1 - c["rho"] ** 2)
    w = np.exp(-0.5 * q)
    if c["shape"] == "two":
        w += rng.uniform(0.3, 1.5) * np.exp(-2.0 * ((u - 2.5) ** 2 + (v + 2) ** 2))
    elif c["shape"] == "wide":
        w = 1 / (1 + q) ** 2
    elif c["shape"] == "plateau":
        w += 0.01
    w *= np.exp(0.02 * rng.uniform(-1, 1, w.shape))  # no ties
    w *= 2.0 ** c["wscale"]
    X, Y = np.meshgrid(gx, gy, indexing="ij")
    df = pd.DataFrame({"x": X.ravel(), "y": Y.ravel(), "weight": w.ravel()})
    if c["shuffle"]:
        df = df.sample(frac=1, random_state=c["seed"])
    kw = {k: c[k] for k in ("sigmas", "power", "smooth") if c[k] is not None}
    cc = ChainConsumer().add_chain(Chain(samples=df, name="A", grid=True, shade=c["shade"], **kw))
    cc.set_plot_config(PlotConfig(sigma2d=c["two_d"], plot_hists=False))
    ax = panels(ctx, cc.plotter.plot(), ["x", "y"], False)[0][0][0]
    h = w / w.max()
    h = h ** (c["power"] or 1.0)
    if c["smooth"]:
        h = gaussian_filter(h, c["smooth"], mode="reflect")
    order = np.argsort(-h.ravel())
    vals = np.empty(h.size)
    vals[order] = np.cumsum(h.ravel()[order]) / h.sum()
    vals = vals.reshape(h.shape)
    lv = sorted({level_of(s_, c["two_d"]) for s_ in (c["sigmas"] or [0, 1, 2])})
    sets = F.contour_sets(ax)
    ctx.eq([s_.filled for s_ in sets], [True, False] if c["shade"] else [False], "contour sets")
    for cs in sets:
        ctx.check(np.allclose(cs.levels, lv, atol=1e-12), lambda: f"levels {cs.levels} instead of {lv}")
    for level, path in zip(lv, sets[-1].get_paths()):
        if np.abs(vals - level).min() < 1e-9:
            continue  # rounding decides which side a cell is on
        want = []
        i, j = np.where((vals[:-1] < level) != (vals[1:] < level))
        t = (level - vals[i, j]) / (vals[i + 1, j] - vals[i, j])
        want += list(zip(i + t, j + 0.0))
        i, j = np.where((vals[:, :-1] < level) != (vals[:, 1:] < level))
        t = (level - vals[i, j]) / (vals[i, j + 1] - vals[i, j])
        want += list(zip(i + 0.0, j + t))
        xy = path.vertices
        got = np.stack([(xy[:, 0] - gx[0]) / (gx[1] - gx[0]), (xy[:, 1] - gy[0]) / (gy[1] - gy[0])], 1) if len(xy) else np.zeros((0, 2))
        ctx.check(bool(len(got)) == bool(len(want)), lambda: f"level {level:.4f}: {len(got)} points drawn, {len(want)} expected")
        if not len(want):
            continue
        want = np.array(want)
        d = np.sqrt(((got[:, None, :] - want[None, :, :]) ** 2).sum(-1))
        ctx.check(d.min(1).max() < 1e-3, lambda: f"level {level:.4f}: the contour is off by {d.min(1).max():.3g} cells")
        ctx.check(d.min(0).max() < 1e-3, lambda: f"level {level:.4f}: a part of the contour is missing, {d.min(0).max():.3g} cells away from what is drawn")
        ctx.hit()
    ctx.label(c["shape"], f"power {c['power']}", f"smooth {c['smooth']}")


@facet(P, "power", lambda: st.fixed_dictionaries({
    "seed": gen.seeds, "rho": st.sampled_from([0.0, 0.6, -0.7]), "power": st.sampled_from([0.5, 2.0, 3.0]), "scale": st.sampled_from([1.0, 1e-4, 1e5]), "two_d": st.booleans(),
    "shade": st.booleans(), "sigmas": st.sampled_from([None, [0, 1], [0.5, 1]]),
}), quick=16, thorough=600)
def contour_power(c, ctx):
    """The p-th power of a bivariate normal is a normal with p-times smaller covariance."""
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    rng = np.random.RandomState(c["seed"])
    n = 60000  # dense: the power of a sparse histogram is dominated by counting noise
    x, y = rng.normal(size=(2, n))
    y = c["rho"] * x + np.sqrt(1 - c["rho"] ** 2) * y
    x = x * c["scale"]
    kw = {} if c["sigmas"] is None else {"sigmas": c["sigmas"]}
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({"x": x, "y": y}), name="A", power=c["power"], bins=20, smooth=1, shade=c["shade"], **kw))
    cc.set_plot_config(PlotConfig(sigma2d=c["two_d"], plot_hists=False))
    ax = panels(ctx, cc.plotter.plot(), ["x", "y"], False)[0][0][0]
    m = 20000
    q = rng.normal(size=(m, 2)) @ np.linalg.cholesky(np.cov(np.stack([x, y])) / c["power"]).T
    q += rng.normal(size=q.shape) * np.hypot(1, 0.41) * np.array([np.subtract(*ref.extent(v, np.ones(n))[::-1]) / 39 for v in (x, y)])
    lv = sorted({level_of(s, c["two_d"]) for s in (c["sigmas"] or [0, 1, 2])})
    for cs in F.contour_sets(ax):
        ctx.check(np.allclose(cs.levels, lv), "contour levels")
        if not cs.filled:
            for k, path in enumerate(cs.get_paths()):
                # below one, the power of the tail is cut off by the range of the sample
                if 0 < lv[k] < (0.999 if c["power"] > 1 else 0.7):
                    got = inside(path, q).mean()
                    ctx.close(got, lv[k], f"power {c['power']}: mass of the sharpened sample inside the contour of level {lv[k]:.3f}", rtol=0, atol=0.05)
                    ctx.hit()
    ctx.label(f"power {c['power']}")


@facet(P, "weights", lambda: st.fixed_dictionaries({"c": pairs(), "how": st.sampled_from(["scale", "repeat", "permute"]), "k": st.sampled_from([-400, -70, 4, 100]), "seed": gen.seeds}), quick=40, thorough=1000)
def contour_weights(c, ctx):
    """Equivalent weighted samples give the same contours."""
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    p = c["c"]
    p["n"] = 400 + p["n"] // 8
    x, y, _, _ = pair_points({**p, "w": None, "wscale": 0})
    rng = np.random.RandomState(c["seed"])
    w = rng.randint(1, 4, len(x)).astype(float)
    kw = {"shade": False}
    for k, v in (("bins", p["bins"]), ("smooth", p["smooth"]), ("sigmas", p["sigmas"]), ("power", p["power"])):
        if v is not None:
            kw[k] = v
    a = pd.DataFrame({"x": x, "y": y, "weight": w})
    if c["how"] == "scale":
        b = a.assign(weight=w * 2.0 ** c["k"])
        if p["power"] and abs(c["k"]) > 100:
            raise Excluded("the power of such a weight is not a number")
        if p["kde"]:
            kw["kde"] = p["kde"]
    elif c["how"] == "repeat":
        b = a.loc[np.repeat(np.arange(len(a)), w.astype(int))].reset_index(drop=True).assign(weight=1.0)
    else:
        b = a.sample(frac=1, random_state=c["seed"])
    out = []
    for df in (a, b):
        cc = ChainConsumer().add_chain(Chain(samples=df, name="A", **kw))
        cc.set_plot_config(PlotConfig(plot_hists=False))
        fig = cc.plotter.plot()
        cs = F.contour_sets(panels(ctx, fig, ["x", "y"], False)[0][0][0])[0]
        out.append([[q for q in path.to_polygons(closed_only=False)] for path in cs.get_paths()])
        import matplotlib.pyplot as plt

        plt.close(fig)
    r = np.array([np.ptp(x), np.ptp(y)])
    for k, (u, v) in enumerate(zip(*out)):
        bu, bv = (np.array([np.concatenate([q.min(0), q.max(0)]) for q in z]) for z in (u, v))
        ctx.check(len(u) == len(v), lambda: f"level {k}: {len(u)} contours became {len(v)} after {c['how']}")
        if len(u):
            su, sv = bu[np.lexsort(bu.T)], bv[np.lexsort(bv.T)]
            ctx.check(np.abs(su - sv).max() <= 1e-5 * max(r), lambda: f"level {k}: contours moved by {np.abs(su - sv).max()} after {c['how']} of the weights")
            ctx.hit()
    ctx.label(c["how"])
