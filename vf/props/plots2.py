"""V: marginal curves, truths, points, clouds, blinding and walks as they are drawn."""

from __future__ import annotations

import logging
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fig as F
from .. import gen, ref
from ..core import Excluded, facet, prop
from .plots import (CENTRE, COLOURS, NAMES, POOL, SPREAD, consumer, curves, drawn, has, needs_range, panels, scenes, union)

warnings.simplefilter("ignore")
logging.getLogger("chainconsumer").setLevel(logging.CRITICAL)


# ------------------------------------------------------------------------------------------------ V04
P = prop(
    "V04",
    "one or two chains with random marginals, weights, bins, smoothing, KDE, relative heights and statistics in triangle (upright and "
    "flipped), distribution and summary plots; every drawn curve and shaded region is read back. Non-trivial: a curve was compared.",
    ["tolerances: 6% of the peak for blurred curves, exact for plain histograms"],
)


@st.composite
def density_cases(draw):
    out = {"plot": draw(st.sampled_from(["triangle", "triangle", "flip", "distributions", "summary"])), "chains": []}
    out["cols"] = ["x", "y"] if out["plot"] == "flip" else draw(st.sampled_from([["x", "y"], ["y", "x", "z"]]))
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e7]))
    for _ in range(draw(st.integers(1, 2))):
        multi = draw(st.sampled_from([False, False, False, True]))
        out["chains"].append({
            "n": draw(st.integers(300, 1200)), "seed": draw(gen.seeds), "multi": multi, "fam": draw(st.sampled_from(["normal", "skew", "gamma3", "exponential", "uniform", "beta52"])),
            "w": draw(st.sampled_from([None, "real", "int"])), "smooth": draw(st.sampled_from([None, 0, 2, 3, 4] if multi else [None, 0, 0, 2, 3, 4])), "bins": draw(st.sampled_from([None, 30, 50])),
            "kde": draw(st.sampled_from([None, None, 0.6])) if not multi else None, "height": draw(st.sampled_from([1.0, 1.0, 0.5, 2.5])),
            "bar": draw(st.sampled_from([True, True, False])), "stat": "hdi" if multi else draw(st.sampled_from(gen.STATS)), "area": draw(st.sampled_from([0.5, 0.6827, 0.9] + [0.99, 1.0] * multi)),
            "flat": draw(st.sampled_from([1.0, 1.0, 0.1])),
            "unit": unit, "power": draw(st.sampled_from([None, None, 2.0, 0.5])) if not multi else None, "grid": draw(st.sampled_from([False] * 5 + [True])),
        })
        if draw(st.sampled_from([False] * 7 + [True])):  # bands that end where the histogram does
            out["chains"][-1].update(multi=True, smooth=0, kde=None, bar=True, stat="hdi", flat=0.1, power=None, grid=False)
    return out


def density_frame(c, cols):
    rng = np.random.RandomState(c["seed"])
    data = {}
    n = c["n"]
    if c["grid"]:
        k = 15
        axes = [CENTRE[p] + SPREAD[p] * np.linspace(-3, 3, k) for p in cols]
        mesh = np.meshgrid(*axes, indexing="ij")
        for p, m in zip(cols, mesh):
            data[p] = m.ravel()
        z = sum(((data[p] - CENTRE[p]) / SPREAD[p] - rng.uniform(-0.5, 0.5)) ** 2 for p in cols)
        data = {p: v * c["unit"] for p, v in data.items()}
        data["weight"] = np.exp(-0.5 * z * c["flat"])
        return pd.DataFrame(data)
    for p in cols:
        if c["multi"]:
            t = gen.mixture([[1.0, 0.0, 1.0], [0.8, 12.0, 1.2]], n)
            if c["flat"] < 1:  # two plateaus, one at each end
                t = np.concatenate((np.linspace(0, 3, n // 2), np.linspace(8, 11, n - n // 2)))
            n = len(t)
        else:
            t = gen.quantiles(c["fam"], n)
        data[p] = (CENTRE[p] + SPREAD[p] * t[rng.permutation(n)]) * c["unit"]
    w = gen.make_weights(c["w"], n, rng)
    if w is not None:
        data["weight"] = w
    return pd.DataFrame(data, index=rng.permutation(n))


def outline(x, y):
    """Edges and heights of a step outline."""
    e0, e1, h = [], [], []
    for i in range(len(x) - 1):
        if x[i + 1] > x[i] and y[i + 1] == y[i]:
            e0.append(x[i])
            e1.append(x[i + 1])
            h.append(y[i])
    return np.array(e0), np.array(e1), np.array(h)


@facet(P, "curves", density_cases, quick=70, thorough=2500)
def density(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    cols = c["cols"]
    cc = ChainConsumer()
    info = []
    for i, m in enumerate(c["chains"]):
        if m["kde"]:
            m["n"] = 300 + m["n"] // 8
            m["smooth"] = None if m["smooth"] is None else 1 + m["smooth"] // 2
            if c["plot"] in ("triangle", "flip"):
                m["bins"] = 14  # the cost of the contours grows with the square of the bins
        if m["grid"]:
            m.update(kde=None, smooth=None, bins=None, w=None)
        df = density_frame(m, cols)
        kw = {"summary_area": m["area"], "statistics": gen.stat(m["stat"]), "bar_shade": m["bar"], "histogram_relative_height": m["height"], "multimodal": m["multi"], "grid": m["grid"]}
        for k in ("smooth", "bins", "kde", "power"):
            if m[k] is not None:
                kw[k] = m[k]
        kw["plot_contour"] = True
        ch = Chain(samples=df, name=NAMES[i], color=COLOURS[i], shade=False, **kw)
        cc.add_chain(ch)
        info.append((ch, df, m))
    flip = c["plot"] == "flip"
    cc.set_plot_config(PlotConfig(flip=flip))
    if c["plot"] in ("triangle", "flip"):
        fig = cc.plotter.plot(columns=cols)
        low, _ = panels(ctx, fig, cols)
        axes = [(ax, px, flip and i == 1, info) for ax, px, py, i, j in low if i == j]
    elif c["plot"] == "distributions":
        fig = cc.plotter.plot_distributions(columns=cols)
        axes = [(fig.axes[k], p, False, info) for k, p in enumerate(cols)]
    else:
        fig = cc.plotter.plot_summary(columns=cols)
        k = 1 + len(cols)
        axes = [(fig.axes[r * k + 1 + j], p, False, [info[r]]) for r in range(len(info)) for j, p in enumerate(cols)]
    summ = cc.analysis.get_summary()
    tops: dict[str, list] = {}
    seen = []
    for ax, p, turned, chains in axes:
        got = curves(ax)
        ctx.check(len(got) == len(chains), lambda: f"{c['plot']}, {p!r}: {len(got)} curves for {len(chains)} chains")
        peak = 0.0
        for ch, df, m in chains:
            what = f"{c['plot']}, {p!r}, chain {ch.name!r}"
            mine = [g for g in got if g[2] == F.hexof(ch.color)]
            ctx.check(len(mine) == 1, lambda: f"{what}: {len(mine)} curves in the colour of the chain")
            x, y = mine[0][:2]
            if turned:
                x, y = y, x
            check_curve(ctx, what, x, y, df, p, m)
            fills = [f for f in F.fills(ax) if F.hexof(f.get_facecolor()[0][:3]) == F.hexof(ch.color)]
            check_fill(ctx, what, fills, x, y, summ[ch.name][p], m, turned)
            peak = max(peak, y.max())
            ctx.hit()
        lim = ax.get_xlim() if turned else ax.get_ylim()
        seen.append((p, lim))
        tops.setdefault(p, []).append(peak)
    for p, lim in seen:
        ctx.check(lim[0] == 0, lambda: f"{c['plot']}, {p!r}: the density axis starts at {lim[0]}")
        top = max(tops[p])
        ctx.check(1.0 < lim[1] / top < 1.6, lambda: f"{c['plot']}, {p!r}: the density axis ends at {lim[1]}, the highest curve at {top}")
    ctx.label(c["plot"], f"{len(info)} chains", *["kde" if m["kde"] else "grid" if m["grid"] else "plain" if m["smooth"] == 0 else "smoothed" for _, _, m in info])


def check_curve(ctx, what, x, y, df, p, m):
    data = df[p].to_numpy()
    w = df["weight"].to_numpy() if "weight" in df else np.ones(len(df))
    bins = m["bins"] or (100 if m["smooth"] == 0 else 35)
    smooth = 3 if m["smooth"] is None else m["smooth"]
    power = m["power"] or 1.0
    ctx.check(np.isfinite(x).all() and np.isfinite(y).all() and (y >= 0).all(), lambda: f"{what}: the curve is not a finite non-negative density")
    if m["grid"]:
        e0, e1, h = outline(x, y)
        v = np.unique(data)
        mass = np.array([w[data == u].sum() for u in v])
        ctx.close(0.5 * (e0 + e1), v, f"{what}: grid values", rtol=1e-9, atol=1e-9)
        mass = (mass / mass.max()) ** power
        ctx.close(h, m["height"] * mass / mass.sum() / (v[1] - v[0]), f"{what}: density at the grid values", rtol=1e-6)
        return
    if m["kde"]:
        ctx.check((np.diff(x) > 0).all(), lambda: f"{what}: the curve does not run from left to right")
        k = ref.Kernel(data, w, m["kde"], bins, smooth, True, power)
        xs, ys, _ = k.table(400)
        d = np.abs(np.interp(xs, x, y) - m["height"] * ys).max() / (m["height"] * ys.max())
        ctx.check(d < (0.03 if power >= 1 else 0.08), lambda: f"{what}: kernel density off by {d:.3f} of its peak")
        ctx.close(np.trapezoid(y, x), m["height"], f"{what}: area under the curve", rtol=0.01)
        return
    if smooth == 0:
        e0, e1, h = outline(x, y)
        lo, hi = ref.extent(data, w)
        edges = np.linspace(lo, hi, bins)
        ctx.close(np.append(e0, e1[-1]), edges, f"{what}: edges of the histogram", rtol=1e-9, atol=1e-9 * (hi - lo))
        want, _ = np.histogram(data, bins=edges, weights=w, density=True)
        # the power of the density is a density again; points within rounding of an edge may fall on either side of it
        top, width = want.max(), edges[1] - edges[0]
        raised = (want / top) ** power
        norm = m["height"] / (raised * width).sum()
        sample = (w.max() / w.sum() / width / top) ** min(power, 1.0)
        ctx.close(h, norm * raised, f"{what}: heights of the histogram", rtol=1e-6 if power == 1 else 0.05, atol=2.5 * norm * sample if power != 1 else 1e-9)
        ctx.close(((e1 - e0) * h).sum(), m["height"], f"{what}: area of the histogram", rtol=1e-6)
        return
    ctx.check((np.diff(x) > 0).all(), lambda: f"{what}: the curve does not run from left to right")
    ctx.close(np.trapezoid(y, x), m["height"], f"{what}: area under the curve", rtol=0.02)
    ctx.check(x[0] <= data.min() and x[-1] >= data.max() or ref.lost(data, w) > 0, lambda: f"{what}: the curve ends inside the data")
    if power != 1:
        return  # the histogram is raised before it is blurred, so that its shape depends on the bins
    r = ref.Smoothed(data, w, bins, smooth, True)
    xs, ys, _ = r.table(500)
    d = np.abs(np.interp(xs, x, y) - m["height"] * ys).max() / (m["height"] * ys.max())
    ctx.check(d < (0.06 if len(df) >= 600 else 0.1), lambda: f"{what}: smoothed density off by {d:.3f} of its peak")


def check_fill(ctx, what, fills, x, y, bound, m, turned):
    want = []
    if m["bar"]:
        bs = bound if isinstance(bound, list) else [bound]
        want = [(b.lower, b.upper) for b in bs if b is not None and b.lower is not None and b.upper is not None]
    step = m["grid"] or (m["smooth"] == 0 and not m["kde"])
    if step:
        e0, e1, h = outline(x, y)
        first, last = 0.5 * (e0[0] + e1[0]), 0.5 * (e0[-1] + e1[-1])
    else:
        first, last = x[0], x[-1]
    if step and isinstance(bound, list):  # a band in a tail past the drawn histogram has nothing to shade
        want = [(lo, hi) for lo, hi in want if hi >= first and lo <= last]
    ctx.check(len(fills) == len(want), lambda: f"{what}: {len(fills)} shaded regions for the intervals {want}")
    got = []
    for f in fills:
        v = f.get_paths()[0].vertices
        v = v[:, ::-1] if turned else v
        got.append(v)
    got.sort(key=lambda v: v[:, 0].min())
    for v, (lo, hi) in zip(got, sorted(want)):
        tol = 1e-6 * (last - first)
        ctx.close([v[:, 0].min(), v[:, 0].max()], [max(lo, first), min(hi, last)], f"{what}: ends of the shaded region", rtol=0, atol=tol)
        ctx.check(v[:, 1].min() == 0, lambda: f"{what}: the shaded region does not start at zero")
        top = v[v[:, 1] > 0]
        if step:
            for a, b in top[::50]:
                k = np.where((e0 <= a + 1e-9 * (last - first)) & (a - 1e-9 * (last - first) <= e1))[0]
                ctx.check(np.isclose(h[k], b, rtol=1e-9).any(), lambda: f"{what}: the shaded region at {a} reaches {b}, the bar {h[k]}")
        else:
            d = np.abs(np.interp(top[:, 0], x, y) - top[:, 1]).max() / y.max()
            ctx.check(d < (0.02 if m["smooth"] == 0 else 0.002), lambda: f"{what}: the shaded region misses the curve by {d:.4f} of the peak")


# ------------------------------------------------------------------------------------------------ V05
P = prop(
    "V05",
    "one to three truths with locations for a random subset of the parameters, random styles and markers, in triangle (with and without "
    "histograms, flipped, column subsets), distribution, walk and summary plots. Non-trivial: at least one truth lies on a shown parameter.",
)


@st.composite
def truths(draw, pool=tuple(POOL[:5])):
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 3, 6]))):
        where = draw(st.lists(st.sampled_from([*pool, "unknown"]), min_size=1, max_size=4, unique=True))
        t = {"location": {p: round(CENTRE.get(p, 0.0) + SPREAD.get(p, 1.0) * draw(st.sampled_from([-1.0, -0.25, 0.0, 0.5, 1.5])), 6) for p in where}}
        if draw(st.booleans()):
            t.update(color=draw(st.sampled_from(["#ff7f0e", "#17becf", "red", "#000000"])), line_width=draw(st.sampled_from([0.5, 2.0])), line_style=draw(st.sampled_from(["-", "--", ":"])),
                     alpha=draw(st.sampled_from([0.4, 1.0])), zorder=draw(st.sampled_from([1, 60, 100])))
        if draw(st.sampled_from([False, False, True])):
            t.update(marker=draw(st.sampled_from(["o", "*", "x", "s"])), marker_size=draw(st.sampled_from([30.0, 150.0])))
            if t["marker"] != "x" and draw(st.booleans()):
                t.update(edge_color="#8c564b", marker_edge_width=draw(st.sampled_from([1.0, 2.0])))
        out.append(t)
    return out


def line_style(ln):
    return (round(float((ln.get_xdata() if len(set(ln.get_xdata())) == 1 else ln.get_ydata())[0]), 6), F.hexof(ln.get_color()), ln.get_linestyle(), ln.get_linewidth(), ln.get_alpha(), ln.get_zorder())


def want_style(t, p):
    return (round(t["location"][p], 6), F.hexof(t.get("color", "black")), t.get("line_style", "--"), t.get("line_width", 1.0), t.get("alpha", 1.0), t.get("zorder", 100))


def marker_path(m):
    from matplotlib.markers import MarkerStyle

    ms = MarkerStyle(m)
    return ms.get_path().transformed(ms.get_transform()).vertices


@facet(P, "truths", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=4, min_cols=2, kde=False, cloud=False, point=False, contour=True, smooths=(0, 1), wide=(5, 5)), "t": truths(),
    "plot": st.sampled_from(["triangle", "triangle", "triangle", "distributions", "walks", "summary", "errorbar"]),
    "hists": st.sampled_from([True, True, False]), "flip": st.booleans(), "cols": st.permutations(POOL), "sub": st.booleans(), "series": st.booleans(),
}), quick=140, thorough=4000)
def truth_lines(c, ctx):
    import pandas as pd

    given = [{**t, "location": pd.Series(t["location"])} if c["series"] else t for t in c["t"]]
    cc, info = consumer(c["s"], {"plot_hists": c["hists"], "flip": c["flip"]}, given)
    cols = union(info)
    kw = {}
    if c["sub"]:
        cols = [p for p in c["cols"] if p in cols][:max(2, len(cols) - 1)]
        kw["columns"] = cols
    ts = c["t"]
    if c["plot"] == "triangle":
        if len(cols) < 2:
            raise Excluded("fewer than two parameters to show")
        fig = cc.plotter.plot(**kw)
        low, up = panels(ctx, fig, cols, c["hists"])
        for ax in up:
            ctx.check(not ax.lines and not F.scatters(ax), "a truth above the diagonal")
        flipped = c["flip"] and c["hists"] and len(cols) == 2
        spots = [(ax, None if (px == py and flipped and i == 1) else px, py if px != py or (flipped and i == 1) else None) for ax, px, py, i, j in low]
    elif c["plot"] == "distributions":
        fig = cc.plotter.plot_distributions(**kw)
        spots = [(fig.axes[k], p, None) for k, p in enumerate(cols)]
    elif c["plot"] == "walks":
        fig = cc.plotter.plot_walks(**kw, plot_weights=False, plot_posterior=False)
        spots = [(fig.axes[k], None, p) for k, p in enumerate(cols)]
    else:
        fig = cc.plotter.plot_summary(**kw, errorbar=c["plot"] == "errorbar")
        k = 1 + len(cols)
        spots = [(fig.axes[r * k + 1 + j], p, None) for r in range(len(info)) for j, p in enumerate(cols)]
    for ax, px, py in spots:
        what = f"{c['plot']}, panel {px!r}, {py!r}"
        wv, wh, wm = [], [], []
        for t in ts:
            inx, iny = px in t["location"], py in t["location"]
            if inx and iny and t.get("marker"):
                wm.append(t)
                continue
            if inx:
                wv.append(want_style(t, px))
            if iny:
                wh.append(want_style(t, py))
        ctx.eq(sorted(map(line_style, F.vlines(ax))), sorted(wv), f"{what}: vertical truth lines")
        ctx.eq(sorted(map(line_style, F.hlines(ax))), sorted(wh), f"{what}: horizontal truth lines")
        if c["plot"] != "walks":
            sc = F.scatters(ax)
            ctx.check(len(sc) == len(wm), lambda: f"{what}: {len(sc)} markers for {len(wm)} truths with a marker")
            for s, t in zip(sc, wm):
                ctx.close(F.offsets(s)[0], [t["location"][px], t["location"][py]], f"{what}: truth marker", rtol=1e-9, atol=1e-9)
                ctx.close(s.get_sizes(), [t["marker_size"]], f"{what}: marker size")
                fc = s.get_facecolor() if t["marker"] != "x" else s.get_edgecolor()
                ctx.eq(F.hexof(fc[0][:3]), F.hexof(t.get("color", "black")), f"{what}: marker colour")
                if t["marker"] != "x":
                    ctx.eq(F.hexof(s.get_edgecolor()[0][:3]), F.hexof(t.get("edge_color", t.get("color", "black"))), f"{what}: marker edge colour")
                    ctx.close(s.get_linewidths(), [t.get("marker_edge_width", 1.0)], f"{what}: marker edge width")
                v = s.get_paths()[0].vertices
                ctx.check(v.shape == marker_path(t["marker"]).shape and np.allclose(v, marker_path(t["marker"])), lambda: f"{what}: marker shape")
        if wv or wh or wm:
            ctx.hit()
    ctx.label(c["plot"], f"{len(ts)} truths", "marker" if any(t.get("marker") for t in ts) else "lines")


@facet(P, "validation", lambda: st.fixed_dictionaries({
    "form": st.sampled_from(["dict", "series", "row", "list", "array", "tuple", "none", "number", "frame", "text"]), "keys": st.lists(st.sampled_from(POOL), min_size=1, max_size=4, unique=True),
    "marker": st.sampled_from([None, "o", "s", "*", "D", "x", "+", "1", "|", "."]), "edge": st.one_of(st.none(), st.floats(0.1, 8.0)), "v": st.floats(-1e6, 1e6)}), quick=150)
def truth_validation(c, ctx):
    """Locations are dictionaries or series of one value per parameter; edges of unfilled markers cannot be thick."""
    import pandas as pd
    from matplotlib.lines import Line2D

    from chainconsumer import Truth

    loc = {k: c["v"] + i for i, k in enumerate(c["keys"])}
    kw = {}
    if c["marker"]:
        kw["marker"] = c["marker"]
    if c["edge"] is not None:
        kw["marker_edge_width"] = c["edge"]
    vals = list(loc.values())
    given = {"dict": loc, "series": pd.Series(loc), "row": pd.DataFrame([loc, loc]).iloc[1], "list": vals, "array": np.array(vals), "tuple": tuple(vals), "none": None, "number": vals[0],
             "frame": pd.DataFrame([loc]), "text": "x"}[c["form"]]
    good = c["form"] in ("dict", "series", "row")
    thick = c["marker"] is not None and c["marker"] not in Line2D.filled_markers and (c["edge"] or 1.0) > 1.0
    if not good or thick:
        ctx.rejects(lambda: Truth(location=given, **kw), f"truth with a location of the form {c['form']}, marker {c['marker']!r} and edge width {c['edge']}")
    else:
        t = Truth(location=given, **kw)
        ctx.eq(dict(t.location), loc, "location")
        ctx.eq((t.marker, t.marker_edge_width), (c["marker"], 1.0 if c["edge"] is None else c["edge"]), "marker and edge width")
        ctx.hit()
    ctx.label(c["form"], "thick" if thick else "thin")


# ------------------------------------------------------------------------------------------------ V06
P = prop(
    "V06",
    "scenes of chains that show their best point, with and without contours and clouds, log posteriors with ties, shuffled indices, and "
    "markers at given locations; coordinates, marker, size and colour are read back. Non-trivial: a point was compared.",
)


@facet(P, "points", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=3, kde=False, cloud=False, point=False, contour=True, smooths=(0, 1), lp=True), "which": st.sampled_from(["with", "without", "nolp"]),
    "style": st.sampled_from(["o", "*", ".", "P"]), "size": st.sampled_from([10, 45.0, 120]), "alpha": st.sampled_from([1.0, 0.5]), "ties": st.booleans(),
    "marks": st.lists(st.tuples(st.lists(st.sampled_from(POOL[:3]), min_size=1, max_size=3, unique=True), st.sampled_from(["s", "D"]), st.sampled_from([20.0, 77.0]), st.sampled_from(["#8c564b", "#e377c2"]), st.integers(0, 2**31 - 1)), max_size=2),
    "hists": st.booleans(), "cloud": st.sampled_from([None, None, "plain", "extra", "weight", "log_posterior"]),
}), quick=120, thorough=3500)
def points(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from .plots import scene_frame

    cc = ChainConsumer()
    want = []  # (color or None, location, marker, size, alpha, contour)
    base = []
    for i, s in enumerate(c["s"]):
        df = scene_frame(s, i)
        if c["ties"]:
            df["log_posterior"] = np.round(df["log_posterior"])
        last = i == len(c["s"]) - 1
        contour = not (last and c["which"] == "without" and i > 0)
        if last and c["which"] == "nolp":
            df = df.drop(columns="log_posterior")
        kw = {}
        if c["cloud"] and (last or len(c["s"]) == 1):
            kw["plot_cloud"] = True
            if c["which"] == "without":
                contour = False
            if c["cloud"] == "extra":
                df["extra"] = np.arange(len(df)) * 1.0
            if c["cloud"] == "weight" and "weight" not in df:
                df["weight"] = 1.0 + np.arange(len(df)) % 3
            if c["cloud"] != "plain" and c["cloud"] in df:
                kw["color_param"] = c["cloud"]
        cc.add_chain(Chain(samples=df, name=NAMES[i], color=COLOURS[i], plot_point=True, plot_contour=contour, smooth=0, bins=12, marker_style=c["style"], marker_size=c["size"], marker_alpha=c["alpha"], shade=False, **kw))
        base.append((None, df, {**s, "contour": contour, "cloud": bool(kw), "point": True, "cp": kw.get("color_param")}))
        if "log_posterior" in df:
            k = int(np.argmax(df["log_posterior"].to_numpy()))
            want.append((COLOURS[i], {p: float(df[p].iloc[k]) for p in s["cols"]}, c["style"], c["size"], c["alpha"], contour))
    known = union(base)
    for k, (where, style, size, colour, seed) in enumerate(c["marks"]):
        rng = np.random.RandomState(seed)
        loc = {p: CENTRE[p] + SPREAD[p] * rng.normal() for p in where if p in known}
        if not loc:
            continue
        ret = cc.add_marker(loc, name=f"marker {k}", color=colour, marker_size=size, marker_style=style, marker_alpha=0.8)
        ctx.check(ret is cc, "add_marker does not return the ChainConsumer")
        want.append((colour, loc, style, size, 0.8, False))
    cols = known
    needs_range(base, cols)
    if len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    cc.set_plot_config(PlotConfig(plot_hists=c["hists"]))
    fig = cc.plotter.plot()
    low, _ = panels(ctx, fig, cols, c["hists"])
    for ax, px, py, i, j in low:
        if px == py:
            ctx.check(not F.scatters(ax), lambda: f"a point in the 1D panel of {px!r}")
            continue
        exp = [w for w in want if px in w[1] and py in w[1]]
        sc = [x for x in F.scatters(ax) if len(F.offsets(x)) == 1]
        what = f"panel {px!r}, {py!r}"
        ctx.check(len(sc) == len(exp), lambda: f"{what}: {len(sc)} points, expected {len(exp)}")
        for s, (colour, loc, style, size, alpha, contour) in zip(sc, exp):
            ctx.close(F.offsets(s), [[loc[px], loc[py]]], f"{what}: point in colour {colour}", rtol=1e-12)
            ctx.close(s.get_sizes(), [size], f"{what}: size")
            ctx.close(s.get_alpha(), alpha, f"{what}: alpha")
            v = s.get_paths()[0].vertices
            ctx.check(v.shape == marker_path(style).shape and np.allclose(v, marker_path(style)), lambda: f"{what}: marker {style!r} has another shape")
            got = F.hexof(s.get_facecolor()[0][:3])
            if not contour:
                ctx.eq(got, F.hexof(colour), f"{what}: colour of a point without contour")
            else:
                a, b = (sum(int(h[k:k + 2], 16) for k in (1, 3, 5)) for h in (got, F.hexof(colour)))
                ctx.check(a < b, lambda: f"{what}: the point {got} is not darker than its contour {colour}")
            ctx.hit()
    ctx.label(c["which"], f"{len(want)} points", "ties" if c["ties"] else "no ties")


# ------------------------------------------------------------------------------------------------ V07
P = prop(
    "V07",
    "one to three chains with clouds, coloured by an extra column, the weight, the log posterior, a plotted parameter or not at all, with "
    "different cloud sizes and colour maps; every drawn point is looked up in the samples. Non-trivial: a cloud was compared.",
)


@facet(P, "clouds", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=3, max_cols=3, kde=False, cloud=False, point=False, smooths=(0, 1), n=(60, 600), lp=True, weights=("real", "int")),
    "cps": st.lists(st.sampled_from([None, "extra", "extra", "weight", "log_posterior", "own", "posterior", "log_weight", "w", "Weights"]), min_size=3, max_size=3), "cloud": st.lists(st.sampled_from([True, True, False]), min_size=3, max_size=3),
    "num": st.lists(st.sampled_from([None, None, 20, 50, 100.5, 333]), min_size=3, max_size=3), "cmap": st.sampled_from([None, "plasma", "Greys"]), "hists": st.booleans(), "label": st.booleans(),
}), quick=80, thorough=3000)
def clouds(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from .plots import scene_frame

    cc = ChainConsumer()
    info = []
    for i, s in enumerate(c["s"]):
        cp = c["cps"][i] if c["cloud"][i] else None
        if cp == "own":
            cp = s["cols"][-1] if len(s["cols"]) > 2 else "extra"
        s = {**s, "cloud": c["cloud"][i], "cp": cp if cp == "extra" else None}
        df = scene_frame(s, i)
        if cp == "extra":
            df["extra"] = df["extra"] + 5 * i
        elif cp in ("posterior", "log_weight", "w", "Weights"):
            df[cp] = np.sqrt(np.arange(len(df)) + 3.0 * i) - 7
        kw = {} if c["num"][i] is None else {"num_cloud": c["num"][i]}
        if cp:
            kw["color_param"] = cp
        if c["cmap"]:
            kw["cmap"] = c["cmap"]
        s.update(contour=not s["cloud"] or s["contour"])
        ch = Chain(samples=df, name=NAMES[i], color=COLOURS[i], plot_cloud=s["cloud"], plot_contour=s["contour"], shade=False, smooth=0, bins=12, zorder=s["zorder"], **kw)
        cc.add_chain(ch)
        shown = [p for p in s["cols"] if p != cp]
        info.append((ch, df, s, cp, shown))
    cols = []
    for x in info:
        cols += [p for p in x[4] if p not in cols]
    if len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    lab = {"extra": "Extra $e$", "weight": "W", "log_posterior": "lnP"} if c["label"] else {}
    cc.set_plot_config(PlotConfig(plot_hists=c["hists"], labels=lab))
    fig = cc.plotter.plot()
    low, _ = panels(ctx, fig, cols, c["hists"])
    used = {}
    for ax, px, py, i, j in low:
        if px == py:
            continue
        what = f"panel {px!r}, {py!r}"
        exp = [x for x in info if x[2]["cloud"] and px in x[4] and py in x[4]]
        sc = F.scatters(ax)
        ctx.check(len(sc) == len(exp), lambda: f"{what}: {len(sc)} clouds for {len(exp)} chains")
        for s, (ch, df, cfg, cp, _) in zip(sc, exp):
            off = F.offsets(s)
            n, k = len(df), len(off)
            num = ch.num_cloud
            ctx.check(min(n, num) <= k + 1 and (k <= n if n < 2 * num else k <= 2 * num + 1), lambda: f"{what}: {k} points for num_cloud={num} and {n} samples")
            where = {tuple(t): r for r, t in enumerate(df[[px, py]].to_numpy().tolist())}
            rows = [where.get(tuple(t)) for t in off.tolist()]
            ctx.check(None not in rows, lambda: f"{what}: a cloud point {off[rows.index(None)]} is not a sample of chain {ch.name!r}")
            ctx.check(len(set(rows)) == k, lambda: f"{what}: a sample is drawn twice")
            gap = np.diff([-1, *sorted(rows), n]).max()
            ctx.check(gap <= 2 * n / k + 1, lambda: f"{what}: the cloud of {k} points leaves out {gap} consecutive samples of {n}")
            if cp:
                ctx.check(s.get_array() is not None, lambda: f"{what}: chain {ch.name!r} is not coloured by {cp!r}")
                ctx.close(np.ma.getdata(s.get_array()), df[cp].to_numpy()[rows], f"{what}: colour values of chain {ch.name!r}", rtol=1e-12)
                ctx.eq(s.get_cmap().name, c["cmap"] or "viridis", f"{what}: colour map")
                used.setdefault(cp, []).append(s.get_clim())
            else:
                ctx.check(s.get_array() is None or len(s.get_array()) == 0, lambda: f"{what}: colour values without a colour parameter")
                ctx.eq(F.hexof(s.get_facecolor()[0][:3]), F.hexof(ch.color), f"{what}: colour of the cloud")
            for cs in F.contour_sets(ax):
                if len(exp) == 1 and len(info) == 1:
                    ctx.check(s.get_zorder() < cs.get_zorder(), lambda: f"{what}: the cloud covers its contours")
            ctx.hit()
    bars = [ax for ax in fig.axes if hasattr(ax, "_colorbar")]
    names = [b._colorbar.ax.get_ylabel() for b in bars]
    default = {"extra": "extra", "weight": "Weights", "log_posterior": "log_posterior", "posterior": "log(Posterior)", "log_weight": "log(Weights)"}
    ctx.eq(sorted(names), sorted(lab.get(p, default.get(p, p)) for p in used), "labels of the colour bars")
    for b, name in zip(bars, names):
        limits = [v for q in used if lab.get(q, default.get(q, q)) == name for v in used[q]]
        v = tuple(b._colorbar.mappable.get_clim())
        ctx.check(v in limits, lambda: f"the colour bar {name!r} runs over {v}, the clouds over {limits}")
    for p in {x[3] for x in info if x[3]}:
        if p not in cols:
            ctx.check(all(p not in (q, r) for _, q, r, _, _ in low), lambda: f"colour column {p!r} has a panel")
    ctx.label(f"{len(bars)} colour bars", *[str(x[3]) for x in info])


# ------------------------------------------------------------------------------------------------ V08
P = prop(
    "V08",
    "scenes with values far from one, all or some parameters blinded by name, in every plot, with log axes, truths, colour bars, summaries "
    "and diagonal ticks; after a full draw no tick, tick label, title, offset or colour bar tick of a blinded parameter is visible, and "
    "parameters that are not blinded keep theirs. Non-trivial: a blinded parameter is shown.",
)


@facet(P, "blind", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=3, kde=False, smooths=(0, 1), full=True, point=False, weights=("real",), wide=(2, 8), stats=("max", "cumulative", "cumulative", "hdi")), "blind": st.one_of(st.just(True), st.lists(st.integers(0, 3), max_size=3, unique=True), st.lists(st.integers(0, 7), min_size=4, max_size=8, unique=True)),
    "plot": st.sampled_from(["triangle", "triangle", "triangle", "flip", "distributions", "walks", "summary", "errorbar"]), "log": st.booleans(), "scale": st.sampled_from([1.0, 1.0, 1e7, 1e-9]),
    "one": st.booleans(), "hists": st.sampled_from([True, True, False]),
}), quick=160, thorough=4000)
def blinding(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from .plots import scene_frame

    s = c["s"][:1] if c["one"] else c["s"]
    cc = ChainConsumer()
    info = []
    for i, k in enumerate(s):
        df = scene_frame(k, i)
        for p in k["cols"]:
            df[p] = (df[p] + (30 if c["log"] else 0)) * c["scale"]
        contour = k["contour"] or not k["cloud"]
        kw = {"color_param": k["cp"]} if k["cp"] else {}
        cc.add_chain(Chain(samples=df, name=NAMES[i], color=COLOURS[i], plot_contour=contour, plot_cloud=k["cloud"], smooth=0, bins=12, statistics=gen.stat(k["stat"]), **kw))
        info.append((None, df, {**k, "contour": contour, "point": False}))
    cols = union(info)
    colour_cols = sorted({x[2]["cp"] for x in info if x[2]["cloud"] and x[2]["cp"]})
    if c["blind"] is True:
        blind, arg = [*cols, *colour_cols], True
    else:
        allp = [*cols, *colour_cols]
        blind = [allp[k] for k in c["blind"] if k < len(allp)]
        arg = blind
    logs = cols if c["log"] else []
    cc.set_plot_config(PlotConfig(blind=arg, log_scales=logs, flip=c["plot"] == "flip", plot_hists=c["hists"] or c["plot"] == "flip"))
    hists = c["hists"] or c["plot"] == "flip"
    spots = []  # (axes, which axis, parameter, expected to show ticks when not blinded)
    titles = []
    if c["plot"] in ("triangle", "flip"):
        if len(cols) < 2:
            raise Excluded("fewer than two parameters to show")
        fig = cc.plotter.plot()
        low, _ = panels(ctx, fig, cols, hists)
        m = len(cols) - (not hists)
        flipped = c["plot"] == "flip" and len(cols) == 2
        for ax, px, py, i, j in low:
            if px == py:
                turned = flipped and i == 1
                spots.append((ax, "y" if turned else "x", px, i == m - 1 and not turned))
                titles.append((ax, px))
                # the density scale of a marginal
                ctx.check(not F.visible_tick_labels(ax, "x" if turned else "y"), lambda: f"tick labels on the density axis of {px!r}")
            else:
                spots.append((ax, "x", px, i == m - 1))
                spots.append((ax, "y", py, j == 0))
        for ax in fig.axes:
            if hasattr(ax, "_colorbar"):
                name = ax.get_ylabel()
                p = {"Weights": "weight"}.get(name, name)
                spots.append((ax, "y", p, False))
    elif c["plot"] == "distributions":
        fig = cc.plotter.plot_distributions()
        spots = [(fig.axes[k], "x", p, True) for k, p in enumerate(cols)]
        titles = [(fig.axes[k], p) for k, p in enumerate(cols)]
    elif c["plot"] == "walks":
        fig = cc.plotter.plot_walks(plot_weights=False, plot_posterior=False)
        spots = [(fig.axes[k], "y", p, True) for k, p in enumerate(cols)]
    else:
        fig = cc.plotter.plot_summary(errorbar=c["plot"] == "errorbar")
        k = 1 + len(cols)
        spots = [(fig.axes[r * k + 1 + j], "x", p, False) for r in range(len(info)) for j, p in enumerate(cols)]
    fig.canvas.draw()
    for ax, which, p, outer in spots:
        what = f"{c['plot']}: {which} axis of {p!r}"
        labels, ticks = F.visible_tick_labels(ax, which), F.ticks_in_view(ax, which)
        if p in blind:
            ctx.check(not labels, lambda: f"{what} is blinded and shows the tick labels {labels}")
            ctx.check(not ticks, lambda: f"{what} is blinded and shows ticks at {ticks}")
            off = (ax.xaxis if which == "x" else ax.yaxis).get_offset_text()
            lab = ax.get_xlabel() if which == "x" else ax.get_ylabel()
            ctx.check(not (off.get_visible() and off.get_text().strip()), lambda: f"{what} is blinded and shows the offset {off.get_text()!r}")
            ctx.check(not re.search(r"[0-9]", lab), lambda: f"{what} is blinded and its label shows a number: {lab!r}")
            ctx.hit()
        elif outer and not logs:
            ctx.check(labels, lambda: f"{what} is not blinded and shows no tick labels")
    for ax, p in titles:
        if p in blind:
            ctx.check(not ax.get_title(), lambda: f"{p!r} is blinded and has the title {ax.get_title()!r}")
    if c["blind"] is True and c["plot"] not in ("walks",):
        texts = [t for t in F.all_texts(fig) if re.search(r"[0-9]", t) and t not in cols]
        bad = []
        for t in texts:
            ok = any(t in F.visible_tick_labels(ax, w) for ax in fig.axes for w in "xy")
            if ok:
                bad.append(t)
        ctx.check(not bad, lambda: f"everything is blinded and the figure shows {bad}")
    ctx.label(c["plot"], "all" if c["blind"] is True else f"{len(blind)} blinded", "log" if c["log"] else "linear", f"{len(colour_cols)} colour columns")


@facet(P, "standalone", lambda: st.fixed_dictionaries({
    "s": scenes(min_chains=1, max_chains=1, max_cols=2, kde=False, smooths=(0, 1), cloud=False, point=False, contour=True), "blind": st.sampled_from([True, False, [0], [1], [0, 1]]), "label": st.booleans(),
    "multi": st.booleans()}), quick=30, thorough=600)
def blind_standalone(c, ctx):
    """plot_dist with a configuration that blinds the parameter."""
    import matplotlib.pyplot as plt
    from chainconsumer import PlotConfig
    from chainconsumer.plotting import plot_dist

    more = {"statistics": gen.stat("hdi"), "multimodal": True} if c["multi"] else {}
    cc, info = consumer(c["s"], {}, (), more)
    cols = union(info)
    blind = c["blind"] if isinstance(c["blind"], bool) else [cols[k] for k in c["blind"] if k < len(cols)]
    conf = PlotConfig(blind=blind, labels={cols[0]: "Label"} if c["label"] else {})
    ch = cc.get_chain(info[0][0].name)
    for p in cols:
        fig, ax = plt.subplots()
        plot_dist(ax, ch, p, conf, summary=True)
        if blind is True or (blind and p in blind):
            ctx.check(not any(re.search("[0-9]", t.get_text()) for t in [ax.title, *ax.texts]), lambda: f"{p!r} is blinded and plot_dist gives it the title {ax.get_title()!r}")
            ctx.hit()
        else:
            ctx.check(re.search("[0-9]", ax.get_title()), lambda: f"{p!r} is not blinded and plot_dist gives it the title {ax.get_title()!r}")
        plt.close(fig)
    ctx.label("bool" if isinstance(blind, bool) else "names")


# ------------------------------------------------------------------------------------------------ V09
P = prop(
    "V09",
    "one to three chains of different lengths (also beyond 100000 samples), with and without log posterior, log weights, moving averages, "
    "column and chain selections; every drawn point is compared with the samples. Non-trivial: a walk was compared.",
)


def walk_cases(big, lp=None, max_chains=3, wide=(7, 8)):
    return st.fixed_dictionaries({
        "s": scenes(max_chains=max_chains, max_cols=3, kde=False, cloud=False, point=False, contour=True, weights=(None, "real", "wide"), lp=lp, wide=wide),
        "conv": st.sampled_from([None, None, 1, 2, 5, 10, 33, 500]), "short": st.one_of(st.none(), st.integers(1, 12)),
        "weights": st.booleans(), "post": st.booleans() if lp is None else st.just(True), "log_w": st.booleans(), "big": st.sampled_from(big),
        "ask": st.sampled_from(["all", "chains", "columns"]), "seed": gen.seeds, "labels": st.booleans(),
    })


@facet(P, "long", lambda: walk_cases([100001, 199999, 200000, 200001, 250000, 300003], lp=True, max_chains=2, wide=None), quick=9, thorough=150)
def walks_long(c, ctx):
    """Chains of more samples than are drawn."""
    walks(c, ctx)


@facet(P, "walks", lambda: walk_cases([0, 0, 0, 0, 0, 0, 0, 100001, 150000]), quick=90, thorough=3500)
def walks(c, ctx):
    if c["big"]:
        c["s"] = c["s"][:1]
        c["s"][0]["n"] = c["big"]
    labels = {p: f"Label {k}" for k, p in enumerate(POOL)} if c["labels"] else {}
    cc, info = consumer(c["s"], {"labels": labels})
    if c["short"]:
        # a chain of a few samples, maybe fewer than the moving average needs
        from chainconsumer import Chain

        df = info[0][1].iloc[: c["short"]].reset_index(drop=True) * 1.01
        df = df.drop(columns=[x for x in ("log_posterior",) if x in df])
        ch = Chain(samples=df, name="short", color="#123456")
        cc.add_chain(ch)
        info.append((ch, df, {**info[0][2], "lp": None, "w": info[0][2]["w"]}))
    sel = info
    kw = {}
    rng = np.random.RandomState(c["seed"])
    if c["ask"] == "chains":
        sel = [info[i] for i in rng.permutation(len(info))[: 1 + rng.randint(len(info))]]
        kw["chains"] = [x[0].name for x in sel]
    cols = union(sel)
    if c["ask"] == "columns":
        cols = [cols[i] for i in rng.permutation(len(cols))[: 1 + rng.randint(len(cols))]]
        kw["columns"] = cols
    if c["conv"]:
        kw["convolve"] = c["conv"]
    fig = cc.plotter.plot_walks(**kw, plot_weights=c["weights"], plot_posterior=c["post"], log_weight=c["log_w"])
    rows = []
    if c["post"] and any(x[2]["lp"] for x in sel):
        rows.append(("post", r"$\log(P)$"))
    if c["weights"]:
        rows.append(("weight", r"$\log_{10}$Weight" if c["log_w"] else "Weight"))
    rows += [(p, labels.get(p, p)) for p in cols]
    ctx.check(len(fig.axes) == len(rows), lambda: f"{len(fig.axes)} panels for {rows}")
    longest = 0
    for ax, (p, label) in zip(fig.axes, rows):
        ctx.eq(ax.get_ylabel(), label, "label of a walk panel")
        want = []
        for ch, df, cfg in sel:
            if p == "post":
                if not cfg["lp"]:
                    continue
                y = df["log_posterior"].to_numpy()
                y = y - y.max()
            elif p == "weight":
                y = df["weight"].to_numpy() if cfg["w"] else np.ones(len(df))
                y = np.log10(y) if c["log_w"] else y
            elif p in df:
                y = df[p].to_numpy()
            else:
                continue
            want.append((ch, y))
        sc = F.scatters(ax)
        ctx.check(len(sc) == len(want), lambda: f"walk of {p!r}: {len(sc)} chains drawn, expected {len(want)}")
        shown = []
        for s, (ch, y) in zip(sc, want):
            off = F.offsets(s)
            k = len(off)
            ctx.check((off[:, 0] == np.arange(k)).all(), lambda: f"walk of {p!r}: steps are not counted from zero")
            if len(y) <= 100000:
                ctx.close(off[:, 1], y, f"walk of {p!r}, chain {ch.name!r}", rtol=1e-12, atol=1e-12)
            else:
                step = len(y) // k if k else 0
                ctx.check(50000 <= k <= 200000, lambda: f"walk of {p!r}: {k} of {len(y)} samples drawn")
                step = int(round(len(y) / k))
                ctx.check(len(y[::step]) == k, lambda: f"walk of {p!r}: {k} samples drawn of {len(y)}")
                ctx.close(off[:, 1], y[::step], f"walk of {p!r}, every {step}th sample", rtol=1e-12, atol=1e-12)
                y = y[::step]
            ctx.eq(F.hexof(s.get_facecolor()[0][:3]), F.hexof(ch.color), f"walk of {p!r}: colour of chain {ch.name!r}")
            longest = max(longest, k)
            shown.append(y)
            ctx.hit()
        lines = [ln for ln in ax.lines if not F.is_hline(ax, ln)]
        if c["conv"]:
            if any(len(y) == c["conv"] for y in shown):
                raise Excluded("the window is as wide as the chain")
            lines = [ln for ln in lines if len(ln.get_xdata())]
            shown = [y for y in shown if len(y) > c["conv"]]
            ctx.check(len(lines) == len(shown), lambda: f"walk of {p!r}: {len(lines)} moving averages for {len(shown)} chains that are long enough")
            for ln, y in zip(lines, shown):
                x, a = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
                half = c["conv"] // 2
                # every value is the mean of a window of the configured width around its step
                cs = np.concatenate(([0.0], np.cumsum(y)))
                ctx.check(len(x) > 0 and x[0] >= 0 and x[-1] < len(y), lambda: f"walk of {p!r}: moving average drawn over steps {x[:1]} .. {x[-1:]}")
                ctx.check(len(x) >= len(y) - c["conv"] - 2, lambda: f"walk of {p!r}: the moving average covers {len(x)} of {len(y)} steps")
                start = x - half if c["conv"] % 2 else x - half
                ok = (start >= 0) & (start + c["conv"] <= len(y))
                mean = (cs[(start + c["conv"])[ok]] - cs[start[ok]]) / c["conv"]
                tol = 1e-9 * (np.abs(y).max() + 1)
                ctx.check(np.abs(mean - a[ok]).max() <= tol, lambda: f"walk of {p!r}: moving average off by {np.abs(mean - a[ok]).max()}")
                ctx.check(ok.sum() >= len(x) - 1, lambda: f"walk of {p!r}: the moving average is drawn where its window leaves the chain")
        else:
            ctx.check(not lines, lambda: f"walk of {p!r}: a line although no moving average was asked for")
    for ax in fig.axes:
        lo, hi = ax.get_xlim()
        ctx.check(lo == 0 and longest - 1 <= hi <= longest * 1.1 + 1, lambda: f"the step axis runs from {lo} to {hi} for {longest} steps")
    ctx.label(c["ask"], f"convolve {c['conv']}", "long" if c["big"] else "short")
