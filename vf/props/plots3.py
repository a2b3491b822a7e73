"""V: distributions, summaries, files, legends, titles and the standalone drawing functions."""

from __future__ import annotations

import logging
import os
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fig as F
from .. import gen
from ..core import Excluded, facet, prop
from .plots import (CENTRE, COLOURS, NAMES, POOL, SPREAD, chain_of, consumer, curves, drawn, has, needs_range, panels, scene_frame, scenes, selection, union)
from .plots2 import line_style, marker_path, truths, want_style  # noqa: F401

warnings.simplefilter("ignore")
logging.getLogger("chainconsumer").setLevel(logging.CRITICAL)


# ------------------------------------------------------------------------------------------------ V10
P = prop(
    "V10",
    "one to three chains with partly overlapping parameters, selections of chains and columns, wrapping, log axes and figure scales in "
    "plot_distributions; panels, labels, curves and colours are counted. Non-trivial: at least one curve was expected.",
)


@facet(P, "panels", lambda: st.fixed_dictionaries({
    "s": scenes(max_cols=4, kde=False, smooths=(None, 0, 1), units=(1.0, 1.0, 1e-6, 1e7), wide=(7, 8)), "ask": st.sampled_from(["all", "chains", "names", "columns", "both"]), "seed": gen.seeds,
    "wrap": st.sampled_from([None, 1, 2, 3, 5]), "labels": st.booleans(), "size": st.sampled_from([None, None, 0.5, 2.0, [7.0, 3.0]]), "ticks": st.booleans(), "max_ticks": st.sampled_from([3, 5]),
}), quick=150, thorough=6000)
def distributions(c, ctx):
    labels = {p: f"Label {k}" for k, p in enumerate(POOL)} if c["labels"] else {}
    cc, info = consumer(c["s"], {"labels": labels, "diagonal_tick_labels": c["ticks"], "max_ticks": c["max_ticks"]})
    kw, sel, cols = selection(info, c["ask"], np.random.RandomState(c["seed"]))
    if not sel:
        raise Excluded("nothing to show")
    needs_range(sel, cols)
    if c["wrap"]:
        kw["col_wrap"] = c["wrap"]
    if c["size"]:
        kw["figsize"] = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    fig = cc.plotter.plot_distributions(**kw)
    wrap = c["wrap"] or 4
    ncol, nrow = min(len(cols), wrap), -(-len(cols) // wrap)
    if isinstance(c["size"], list):
        ctx.close(fig.get_size_inches(), c["size"], "figure size")
    else:
        ctx.close(fig.get_size_inches(), np.array([ncol, nrow]) * 2.5 * (c["size"] or 1.0), "figure size")
    ctx.check(len(fig.axes) == ncol * nrow, lambda: f"{len(fig.axes)} panels for {len(cols)} parameters wrapped at {wrap}")
    for k, ax in enumerate(fig.axes):
        if k >= len(cols):
            ctx.check(not ax.axison and not curves(ax), "an unused panel is visible")
            continue
        p = cols[k]
        b = ax.get_position()
        if k % wrap:
            ctx.check(b.x0 > fig.axes[k - 1].get_position().x0, "panels are not ordered from left to right")
        elif k:
            ctx.check(b.y0 < fig.axes[k - wrap].get_position().y0, "panels are not ordered from top to bottom")
        ctx.check(ax.axison, lambda: f"panel {p!r} is hidden")
        ctx.eq(ax.get_xlabel(), labels.get(p, p), "label of a panel")
        want = sorted(F.hexof(x[0].color) for x in sel if x[2]["contour"] and has(x[2], p))
        got = curves(ax)
        ctx.eq(sorted(g[2] for g in got), want, f"panel {p!r}: curves by colour")
        ctx.check(not F.scatters(ax) and not F.contour_sets(ax), lambda: f"panel {p!r}: 2D content")
        ctx.check(not F.visible_tick_labels(ax, "y"), lambda: f"panel {p!r}: ticks on the density axis")
        if want:
            top = max(g[1].max() for g in got)
            ctx.close(ax.get_ylim(), [0, 1.1 * top], f"panel {p!r}: density axis", rtol=1e-6)
            ctx.hit()
    ctx.label(c["ask"], f"wrap {wrap}", f"{len(cols)} parameters")


# ------------------------------------------------------------------------------------------------ V11
P = prop(
    "V11",
    "one to four chains with partly overlapping parameters, as curves and as error bars, five statistics, constrained or not, selections of "
    "chains and columns; names, titles, error bars and curves are compared with the summaries. Non-trivial: a bar or curve was compared.",
)


@facet(P, "summary", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=4, max_cols=3, wide=(8, 6), kde=False, cloud=False, point=False, contour=True, smooths=(None, 1), stats=gen.STATS, n=(150, 500), fams=("normal", "skew", "gamma3", "exponential"), units=(1.0, 1.0, 1e-6, 1e7)),
    "bar": st.booleans(), "ask": st.sampled_from(["all", "chains", "names", "columns"]), "seed": gen.seeds, "labels": st.booleans(), "colour": st.booleans(), "size": st.sampled_from([1.0, 0.6, 2]),
}), quick=110, thorough=5000)
def summary_plot(c, ctx):
    labels = {p: f"Label {k}" for k, p in enumerate(POOL)} if c["labels"] else {}
    cc, info = consumer(c["s"], {"labels": labels, "legend_color_text": c["colour"]}, more={"bar_shade": True})
    kw, sel, cols = selection(info, c["ask"], np.random.RandomState(c["seed"]))
    needs_range(sel, cols)
    one = cc.plotter.plot_summary(**kw, errorbar=c["bar"])
    fig = cc.plotter.plot_summary(**kw, errorbar=c["bar"], figsize=c["size"])
    ctx.close(fig.get_size_inches(), np.array(one.get_size_inches()) * c["size"], "figure size", rtol=1e-6)
    k = 1 + len(cols)
    ctx.check(len(fig.axes) == k * len(sel), lambda: f"{len(fig.axes)} panels for {len(sel)} chains and {len(cols)} parameters")
    summ = cc.analysis.get_summary()
    for r, (ch, df, cfg) in enumerate(sel):
        first = fig.axes[r * k]
        ctx.eq([t.get_text() for t in first.texts], [ch.name], f"name in row {r}")
        ctx.check(not first.axison, "the name panel shows a frame")
        ctx.eq(F.hexof(first.texts[0].get_color()), F.hexof(ch.color if c["colour"] else "k"), f"colour of the name in row {r}")
        for j, p in enumerate(cols):
            ax = fig.axes[r * k + 1 + j]
            what = f"row {r} ({ch.name!r}), {p!r}"
            ctx.eq(ax.get_title(), labels.get(p, p) if r == 0 else "", f"{what}: title")
            bars = ax.containers
            got = [g for g in curves(ax)]
            if not c["bar"] and got:
                ctx.eq(ax.get_ylim()[0], 0.0, f"{what}: start of the density axis")
                ctx.check(got[0][1].max() <= ax.get_ylim()[1], lambda: f"{what}: the curve leaves its axis")
                ctx.check(ax.get_ylim() == fig.axes[1 + j].get_ylim() or not curves(fig.axes[1 + j]), lambda: f"{what}: the rows have different density axes")
            ctx.check(ax.get_xlim() == fig.axes[1 + j].get_xlim(), lambda: f"{what}: the rows have different limits")
            pos, top = ax.get_position(), fig.axes[1 + j].get_position()
            ctx.check(abs(pos.x0 - top.x0) < 1e-9 and (r == 0 or pos.y0 < fig.axes[(r - 1) * k + 1 + j].get_position().y0), lambda: f"{what}: panels are out of order")
            if not has(cfg, p):
                ctx.check(not bars and not got and not F.fills(ax), lambda: f"{what}: content for a parameter the chain does not have")
                continue
            b = summ[ch.name][p]
            if not c["bar"]:
                ctx.eq([g[2] for g in got], [F.hexof(ch.color)], f"{what}: curves")
                ctx.check(len(F.fills(ax)) == (b.lower is not None and b.upper is not None), lambda: f"{what}: {len(F.fills(ax))} shaded regions")
                ctx.hit()
                continue
            ctx.check(not got and not F.fills(ax), lambda: f"{what}: a curve in an error bar plot")
            if b is None or b.lower is None or b.upper is None:
                ctx.check(not bars, lambda: f"{what}: an error bar for an unconstrained parameter")
                ctx.label("unconstrained")
                continue
            ctx.check(len(bars) == 1, lambda: f"{what}: {len(bars)} error bars")
            with ctx.reading(f"{what}: error bar"):
                data, _, cols_ = bars[0].lines
                seg = cols_[0].get_segments()[0]
                x = np.asarray(data.get_xdata(), float)
            if not b.lower <= b.center <= b.upper:
                ctx.label("centre outside its interval")  # max_central of a one-sided distribution
                continue
            tol = 1e-9 * (np.ptp(df[p].to_numpy()) + abs(b.center))
            ctx.close(x, [b.center], f"{what}: centre of the error bar", rtol=0, atol=tol)
            ctx.close(sorted(seg[:, 0]), [b.lower, b.upper], f"{what}: ends of the error bar", rtol=0, atol=tol)
            ctx.eq(F.hexof(data.get_color()), F.hexof(ch.color), f"{what}: colour of the error bar")
            ctx.hit()
    ctx.label("error bars" if c["bar"] else "curves", f"{len(sel)} chains", c["ask"])


# ------------------------------------------------------------------------------------------------ V12
P = prop(
    "V12",
    "every plot with file names (string, path, list; png, pdf, svg), figure sizes, dpi, watermarks, serif and usetex settings; files, sizes "
    "and rc parameters are inspected, and chains, truths and settings compared before and after. Non-trivial: a file or setting was compared.",
)

MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml", ".jpg": b"\xff\xd8"}
PLOTS = ["plot", "plot_distributions", "plot_walks", "plot_summary"]


def snapshot(fig):
    """What a figure shows, as plain values."""
    out = []
    for ax in fig.axes:
        out.append((
            ax.get_xlim(), ax.get_ylim(), ax.get_xlabel(), ax.get_ylabel(), ax.get_title(),
            [(np.asarray(ln.get_xdata(), float).tolist(), np.asarray(ln.get_ydata(), float).tolist(), F.hexof(ln.get_color())) for ln in ax.lines],
            [F.offsets(s).tolist() for s in F.scatters(ax)],
            [[p.vertices.tolist() for p in cs.get_paths()] for cs in F.contour_sets(ax)],
            [np.asarray(p.get_xy()).tolist() if hasattr(p, "get_xy") else 0 for p in ax.patches],
        ))
    return out


@facet(P, "files", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=2, kde=False, smooths=(0,), n=(30, 60), full=True, contour=True), "plot": st.sampled_from(PLOTS),
    "names": st.lists(st.sampled_from([".png", ".png", ".pdf", ".svg", ".jpg"]), min_size=1, max_size=2), "form": st.sampled_from(["str", "path", "list", "mixed"]), "dpi": st.sampled_from([40, 80]),
    "mark": st.sampled_from([None, None, "DRAFT", "Preliminary"]), "flip": st.booleans(),
}), quick=80, thorough=1200)
def files(c, ctx):
    from pathlib import Path
    import matplotlib.pyplot as plt

    cc, info = consumer(c["s"], {"dpi": c["dpi"], "watermark": c["mark"], "flip": c["flip"]})
    d = os.path.join(ctx.scratch or os.environ["VF_SCRATCH"], f"out{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    names = [os.path.join(d, f"figure {i}{ext}") for i, ext in enumerate(c["names"])]
    if c["form"] == "str":
        names, arg = names[:1], names[0]
    elif c["form"] == "path":
        names, arg = names[:1], Path(names[0])
    elif c["form"] == "list":
        arg = list(names)
    else:
        arg = [Path(n) if i % 2 else n for i, n in enumerate(names)]
    try:
        fig = getattr(cc.plotter, c["plot"])(filename=arg)
        ctx.eq(sorted(os.listdir(d)), sorted(os.path.basename(n) for n in names), "files written")
        for n in names:
            with open(n, "rb") as fh:
                head = fh.read(4096)
            ctx.check(head.startswith(MAGIC[os.path.splitext(n)[1]]), lambda: f"{os.path.basename(n)} is not of the type of its name")
            if n.endswith(".png"):
                img = plt.imread(n)
                ctx.check(img.std() > 0, "the image is blank")
                size = np.array(img.shape[1::-1]) / c["dpi"]
                want = fig.get_size_inches()
                ctx.check((size < want * 1.5 + 1).all() and (size > want * 0.5 - 0.5).all(), lambda: f"an image of {img.shape[1::-1]} pixels for {want} inches at {c['dpi']} dpi")
        texts = [t for t in F.all_texts(fig) if c["mark"] and c["mark"] in t]
        ctx.check(len(texts) == (1 if c["mark"] else 0), lambda: f"{len(texts)} watermarks")
    finally:
        for n in names:
            if os.path.exists(n):
                os.unlink(n)
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["plot"], c["form"], *c["names"])
    ctx.hit()


@facet(P, "sizes", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=1, min_cols=2, max_cols=4, kde=False, cloud=False, point=False, contour=True, smooths=(0,), n=(30, 60)), "bar": st.booleans(),
    "size": st.sampled_from(["GROW", "COLUMN", "PAGE", 1.0, 0.5, 2.5, 4, 11, [6.0, 4.5]]), "plot": st.sampled_from(["plot", "plot", "plot_walks"]),
}), quick=90, thorough=1500)
def sizes(c, ctx):
    from chainconsumer import Chain, ChainConsumer
    from chainconsumer.plotter import FigSize

    s = c["s"][0]
    df = scene_frame(s)
    kw = {"plot_cloud": True, "color_param": "weight"} if c["bar"] else {}
    if "weight" not in df:
        df["weight"] = 1.0 + np.arange(len(df))
    cc = ChainConsumer().add_chain(Chain(samples=df, name="A", smooth=0, **kw))
    n = len(s["cols"])
    size = c["size"]
    if c["plot"] == "plot_walks":
        if isinstance(size, str):
            raise Excluded("walks take numbers")
        got = cc.plotter.plot_walks(figsize=tuple(size) if isinstance(size, list) else size).get_size_inches()
        ctx.close(got, size if isinstance(size, list) else [size, size], "size of a walk figure")
    else:
        got = cc.plotter.plot(figsize=FigSize[size] if isinstance(size, str) else tuple(size) if isinstance(size, list) else size).get_size_inches()
        if size == "PAGE":
            want = [10, 10]
        elif size == "COLUMN":
            want = [5 + c["bar"], 5]
        elif isinstance(size, list):
            want = size
        elif isinstance(size, int):
            want = [size, size]
        else:
            grow = 1.0 if size == "GROW" else size
            want = [3 + 2 * grow * n + c["bar"], 3 + 2 * grow * n]
        ctx.close(got, want, f"figure size for {size!r} and {n} parameters")
    ctx.label(str(size))
    ctx.hit()


@facet(P, "pure", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=3, max_cols=3, kde=False, smooths=(None, 0)), "t": truths(), "order": st.lists(st.sampled_from([*PLOTS, "summary", "table"]), min_size=1, max_size=4),
    "last": st.sampled_from(PLOTS), "flip": st.booleans(), "blind": st.sampled_from([False, True, ["x"]]), "ext": st.sampled_from([{}, {}, {"x": [-3.0, 4.0]}]),
}), quick=50, thorough=2000)
def pure(c, ctx):
    """Plotting and summarising leave everything as it was: a plot is the same whatever was done before."""
    import copy
    import matplotlib.pyplot as plt
    from chainconsumer import PlotConfig

    cfg = {"flip": c["flip"], "blind": c["blind"], "labels": {"x": "X"}, "legend_kwargs": {"fontsize": 9}, "extents": c["ext"], "watermark_text_kwargs": {"alpha": 0.5}}
    cc, info = consumer(c["s"], cfg, c["t"])
    cc2, _ = consumer(c["s"], cfg, c["t"])
    sel, cols = drawn(info), union(drawn(info))
    if len(cols) < 2 or not sel:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    needs_range(info, union(info))
    before = [(ch.samples.copy(), {k: copy.deepcopy(v) for k, v in dict(ch).items() if k != "samples"}) for ch, _, _ in info]
    conf_before = copy.deepcopy(dict(cc.plotter.config))
    truth_args = copy.deepcopy(c["t"])
    for step in c["order"]:
        if step == "summary":
            cc.analysis.get_summary()
        elif step == "table":
            cc.analysis.get_latex_table()
        else:
            getattr(cc.plotter, step)()
        plt.close("all")
    for (ch, df, _), (samples, conf) in zip(info, before):
        ctx.check(ch.samples.equals(samples) and list(ch.samples.columns) == list(samples.columns), lambda: f"{c['order']} changed the samples of chain {ch.name!r}")
        now = {k: v for k, v in dict(ch).items() if k != "samples"}
        for k, v in conf.items():
            ctx.check(repr(now[k]) == repr(v), lambda: f"{c['order']} changed {k} of chain {ch.name!r} from {v!r} to {now[k]!r}")
    for k, v in conf_before.items():
        ctx.check(repr(getattr(cc.plotter.config, k)) == repr(v), lambda: f"{c['order']} changed {k} of the plot configuration from {v!r} to {getattr(cc.plotter.config, k)!r}")
    ctx.check(c["t"] == truth_args, "the arguments of the truths were changed")
    a = snapshot(getattr(cc.plotter, c["last"])())
    plt.close("all")
    b = snapshot(getattr(cc2.plotter, c["last"])())
    ctx.check(a == b, lambda: f"{c['last']} shows something else after {c['order']}")
    ctx.label(c["last"], *c["order"])
    ctx.hit()


@facet(P, "rc", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=1, max_cols=2, kde=False, cloud=False, point=False, contour=True, smooths=(0,), n=(30, 60)), "start": st.sampled_from([["sans-serif"], ["serif"], ["monospace"], ["cursive", "serif"]]),
    "serif": st.lists(st.sampled_from([None, True, True, False]), min_size=1, max_size=3), "usetex": st.sampled_from([None, False]), "plot": st.sampled_from(PLOTS),
    "again": st.sampled_from([None, None, *PLOTS]), "tex": st.sampled_from([False, False, True]),
}), quick=60, thorough=900)
def rc(c, ctx):
    import matplotlib as mpl
    from chainconsumer import PlotConfig

    keys = ["text.usetex", "font.family"]
    old = {k: mpl.rcParams[k] for k in mpl.rcParams}
    try:
        mpl.rcParams["font.family"] = c["start"]
        mpl.rcParams["text.usetex"] = c["tex"]  # on at the start, it is switched off by the configuration, as there is no LaTeX here
        cc, info = consumer(c["s"])
        others = {k: mpl.rcParams[k] for k in mpl.rcParams if k not in keys}
        want = c["start"]
        for serif in c["serif"]:
            cc.set_plot_config(PlotConfig(serif=serif, usetex=False if c["tex"] else c["usetex"]))
            getattr(cc.plotter, c["plot"])()
            if c["again"]:
                getattr(cc.plotter, c["again"])()
            if serif is not None:
                want = ["serif" if serif else "sans-serif"]
            ctx.eq(list(mpl.rcParams["font.family"]), want, f"font family while serif={serif}")
        ctx.check({k: mpl.rcParams[k] for k in mpl.rcParams if k not in keys} == others, "plotting changed other rc parameters")
        ctx.eq(mpl.rcParams["text.usetex"], False, "usetex after plotting")
        cc.plotter.restore_rc_params()
        ctx.eq(list(mpl.rcParams["font.family"]), c["start"], "font family after restore_rc_params")
        ctx.eq(mpl.rcParams["text.usetex"], c["tex"], "usetex after restore_rc_params")
    finally:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mpl.rcParams.update(old)
    ctx.label(c["plot"], f"serif {c['serif']}")
    ctx.hit()


# ------------------------------------------------------------------------------------------------ V13
P = prop(
    "V13",
    "one to four chains of contours, clouds and points, some hidden from the legend, with and without legend, location, colours and legend "
    "arguments, upright and flipped; the legends of the figure are read back. Non-trivial: a legend with an entry was expected.",
)


@facet(P, "legend", lambda: st.fixed_dictionaries({
    "s": scenes(min_chains=2, max_chains=4, max_cols=3, wide=(8, 3), kde=False, smooths=(0,), n=(30, 80), color_param=False), "hide": st.lists(st.sampled_from([False, False, False, True]), min_size=8, max_size=8), "show": st.sampled_from([None, None, True, False]),
    "where": st.sampled_from([None, None, [0, 0], [0, -1], [-1, 0], [1, 0]]), "text": st.sampled_from([None, True, False]), "artists": st.sampled_from([None, True, False]), "flip": st.booleans(), "hists": st.booleans(),
    "kw": st.sampled_from([{}, {}, {"loc": "lower left", "fontsize": 7}, {"markerfirst": False, "frameon": True}, {"title": "T"}]), "ls": st.sampled_from(["-", "--", ":"]), "lw": st.sampled_from([1.0, 2.5]),
    "ask": st.sampled_from(["all", "chains", "names"]), "seed": gen.seeds, "mono": st.sampled_from([False, False, False, True]),
}), quick=200, thorough=4000)
def legends(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    cc = ChainConsumer()
    info = []
    for i, s in enumerate(c["s"]):
        ch, df = chain_of(s, i, **({"color": COLOURS[0]} if c["mono"] else {}), show_label_in_legend=not c["hide"][i], linestyle=c["ls"], linewidth=c["lw"], marker_style="*", marker_size=49)
        cc.add_chain(ch)
        info.append((ch, df, s))
    cc.set_plot_config(PlotConfig(show_legend=c["show"], legend_location=c["where"] and tuple(c["where"]), legend_kwargs=c["kw"], flip=c["flip"], plot_hists=c["hists"],
                                  legend_artists=c["artists"], **({} if c["text"] is None else {"legend_color_text": c["text"]})))
    kw, sel, cols = selection(info, c["ask"], np.random.RandomState(c["seed"]))
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    m = len(cols) - (not c["hists"])
    if c["where"] and (c["where"][0] >= m or m == 1 and c["where"] == [1, 0]):
        raise Excluded("no such panel")
    fig = cc.plotter.plot(**kw)
    axes = [ax for ax in fig.axes if not hasattr(ax, "_colorbar")]
    grid = np.array(axes, dtype=object).reshape(m, m)
    legs = [(ax, ax.get_legend()) for ax in fig.axes if ax.get_legend() is not None]
    shown = c["show"] if c["show"] is not None else len(sel) > 1
    if not shown:
        ctx.check(not legs, "a legend although it is switched off or there is a single chain")
        ctx.label("no legend")
        return
    ctx.check(len(legs) == 1, lambda: f"{len(legs)} legends")
    ax, leg = legs[0]
    flipped = c["flip"] and c["hists"] and len(cols) == 2
    where = c["where"] or ([-1, 0] if flipped else [0, -1])
    ctx.check(ax is grid[where[0], where[1]], lambda: f"the legend is not in panel {where}")
    want = [x for x in sel if x[0].show_label_in_legend]
    ctx.eq([t.get_text().strip() for t in leg.get_texts()], [x[0].name for x in want], "legend entries")
    for t, h, (ch, _, s) in zip(leg.get_texts(), leg.legend_handles, want):
        what = f"legend entry {ch.name!r}"
        ctx.eq(F.hexof(h.get_color()), F.hexof(ch.color), f"{what}: colour of its line")
        ctx.eq(F.hexof(t.get_color()), F.hexof("black" if c["text"] is False else ch.color), f"{what}: colour of its text")
        if s["contour"]:
            ctx.eq((h.get_linestyle(), h.get_linewidth()), (c["ls"], c["lw"]), f"{what}: line")
        if s["point"]:
            ctx.eq((h.get_marker(), h.get_markersize()), ("*", 7.0), f"{what}: marker")
            if not s["contour"]:
                ctx.eq(h.get_linewidth(), 0, f"{what}: line of a chain without contours")
        ctx.hit()
    if "fontsize" in c["kw"]:
        ctx.check(all(t.get_fontsize() == 7 for t in leg.get_texts()), "fontsize of legend_kwargs is ignored")
        ctx.eq(leg._loc_real if hasattr(leg, "_loc_real") else leg._loc, 3, "location of legend_kwargs")
    if "title" in c["kw"]:
        ctx.eq(leg.get_title().get_text(), "T", "legend title")
    ctx.eq(leg.get_frame_on(), "frameon" in c["kw"], "legend frame")
    ctx.label(f"{len(want)} entries", str(where))


# ------------------------------------------------------------------------------------------------ V14
P = prop(
    "V14",
    "one to three chains (contours or not), five statistics, labels, multimodal chains, blinded parameters, with summaries switched on and "
    "off in triangle and distribution plots; titles are compared with the text of the summary. Non-trivial: a title was expected.",
)


def maths(text):
    """The parts of a text that matplotlib and LaTeX set as mathematics, and the others, by the dollar signs."""
    parts = text.split("$")
    return parts[1::2], parts[::2]


def title_names(ctx, text, label, what):
    """A title holds the label, with its mathematics as mathematics."""
    ctx.check(text.count("$") % 2 == 0, lambda: f"{what}: {text!r} has an odd number of dollar signs")
    name = label.strip("$")
    m, plain = maths(text)
    if "$" not in name:
        ctx.check(any(name in q for q in m), lambda: f"{what}: {text!r} does not name {name!r}")
        return
    ctx.check(label in text, lambda: f"{what}: {text!r} does not name {label!r}")
    a, b = maths(label)
    for part in a:
        ctx.check(any(part in q for q in m), lambda: f"{what}: {part!r} of the label {label!r} is not mathematics in {text!r}")
    for part in b:
        ctx.check(any(part in q for q in plain), lambda: f"{what}: {part!r} of the label {label!r} is mathematics in {text!r}")


MIXED = ["$H_0$ [km/s]", "Mass [$M_\\odot$]", "$a$ and $b$", "of $c$ "]


@facet(P, "titles", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=3, max_cols=3, wide=(6, 4), kde=False, smooths=(None, 1), stats=gen.STATS, n=(100, 400), fams=("normal", "skew", "gamma3", "exponential"), cloud=True, point=False),
    "one": st.booleans(), "multi": st.sampled_from([False, False, True]), "plot": st.sampled_from(["plot", "plot", "flip", "plot_distributions"]), "on": st.sampled_from([None, True, False]), "blind": st.sampled_from([False, False, ["x"], True]),
    "labels": st.sampled_from([False, True, "mixed"]), "size": st.sampled_from([None, 8]),
}), quick=110, thorough=4000)
def titles(c, ctx):
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    s = c["s"][:1] if c["one"] else c["s"]
    labels = dict(zip(POOL, MIXED)) if c["labels"] == "mixed" else {p: f"L_{k}" for k, p in enumerate(POOL)} if c["labels"] else {}
    cc = ChainConsumer()
    info = []
    for i, k in enumerate(s):
        k = {**k, "contour": k["contour"] or not k["cloud"]}
        more = {}
        if c["multi"] and i == 0:
            more = {"multimodal": True, "statistics": gen.stat("hdi"), "smooth": 2}
        df = scene_frame(k, i)
        if more:
            half = len(df) // 2
            for p in k["cols"]:
                df[p] = np.where(np.arange(len(df)) < half, df[p], df[p] + 15 * SPREAD[p])
        else:
            more = {"statistics": gen.stat(k["stat"]), **({} if k["smooth"] is None else {"smooth": k["smooth"]})}
        ch = Chain(samples=df, name=NAMES[i], color=COLOURS[i], plot_contour=k["contour"], plot_cloud=k["cloud"], summary_area=k["area"], **({"color_param": k["cp"]} if k["cp"] else {}), **more)
        cc.add_chain(ch)
        info.append((ch, df, {**k, "point": False}))
    cols = union(info)
    if c["plot"] != "plot_distributions" and len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    cfg = {"labels": labels, "flip": c["plot"] == "flip", "blind": c["blind"]}
    if c["on"] is not None:
        cfg["summarise"] = c["on"]
    if c["size"]:
        cfg["summary_font_size"] = c["size"]
    cc.set_plot_config(PlotConfig(**cfg))
    fig = cc.plotter.plot_distributions() if c["plot"] == "plot_distributions" else cc.plotter.plot()
    contours = [x for x in info if x[2]["contour"]]
    if c["plot"] == "plot_distributions":
        diag = [(fig.axes[k], p) for k, p in enumerate(cols)]
        on = c["on"] is not False and len(info) == 1
    else:
        low, _ = panels(ctx, fig, cols)
        diag = [(ax, px) for ax, px, py, i, j in low if i == j]
        on = c["on"] is not False and len(contours) == 1
        for ax, px, py, i, j in low:
            ctx.check(i == j or not ax.get_title(), "a title off the diagonal")
    summ = cc.analysis.get_summary()
    for ax, p in diag:
        what = f"{c['plot']}: title of {p!r}"
        blind = c["blind"] is True or (c["blind"] and p in c["blind"])
        if not on or blind or not contours or not has(contours[0][2], p):
            ctx.check(not ax.get_title(), lambda: f"{what}: {ax.get_title()!r} although no summary belongs there")
            continue
        b = summ[contours[0][0].name][p]
        if not isinstance(b, list) and (b.lower is None or b.upper is None):
            ctx.check(not ax.get_title(), lambda: f"{what}: {ax.get_title()!r} for an unconstrained parameter")
            continue
        text = ax.get_title()
        parts = b if isinstance(b, list) else [b]
        label = labels.get(p, p)
        if isinstance(b, list):
            name = label if c["labels"] == "mixed" else label.strip("$")
            ctx.eq(text, cc.analysis.get_parameter_text(b, wrap=True, label=name), what)
        for q in parts if not isinstance(b, list) else []:
            t = cc.analysis.get_parameter_text(q)
            ctx.check(t and any(t in q for q in maths(text)[0]), lambda: f"{what}: {text!r} does not contain the summary {t!r}")
        title_names(ctx, text, label, what)
        if c["size"]:
            ctx.eq(ax.title.get_fontsize(), float(c["size"]), f"{what}: font size")
        ctx.hit()
        ctx.label("multimodal" if isinstance(b, list) else "single")
    fig.canvas.draw()
    ctx.label(c["plot"], "on" if on else "off")


# ------------------------------------------------------------------------------------------------ V15
P = prop(
    "V15",
    "single panels drawn with plot_surface, plot_contour, plot_cloud, plot_point, plot_dist and plot_truths on an axis of the user, against "
    "the same panel of a triangle plot. Non-trivial: an artist was compared.",
)


def content(ax, paths=True):
    """The artists of a panel as plain values, without its limits."""
    out = {"contours": [], "points": [], "lines": []}
    for cs in F.contour_sets(ax):
        out["contours"].append((cs.filled, np.asarray(cs.levels), [p.vertices for p in cs.get_paths()] if paths or cs.filled else [], np.asarray(cs.get_edgecolor()), np.asarray(cs.get_facecolor()), cs.get_alpha(), cs.get_zorder()))
    for s in F.scatters(ax):
        out["points"].append((F.offsets(s), np.asarray(s.get_sizes()), None if s.get_array() is None else np.ma.getdata(s.get_array()), s.get_zorder()))
    out["lines"] = sorted([("v", *line_style(ln)) for ln in F.vlines(ax)] + [("h", *line_style(ln)) for ln in F.hlines(ax)])
    return out


def same(ctx, a, b, what):
    ctx.eq(a["lines"], b["lines"], f"{what}: reference lines")
    for k in ("contours", "points"):
        ctx.check(len(a[k]) == len(b[k]), lambda: f"{what}: {len(a[k])} {k}, in the triangle {len(b[k])}")
        for u, v in zip(a[k], b[k]):
            for x, y in zip(u, v):
                if isinstance(x, list):
                    ctx.check(len(x) == len(y) and all(p.shape == q.shape and np.allclose(p, q) for p, q in zip(x, y)), lambda: f"{what}: {k} differ {[p.shape for p in x]} {[p.shape for p in y]}")
                elif isinstance(x, np.ndarray):
                    ctx.check(y is not None and x.shape == y.shape and np.allclose(x, y), lambda: f"{what}: {k} differ {x} {y}")
                else:
                    ctx.check(x == y, lambda: f"{what}: {k} differ ({x!r}, {y!r})")


@facet(P, "surface", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=3, min_cols=2, smooths=(None, 0, 1), n=(40, 150), units=(1.0, 1.0, 1e-6, 1e7)), "two_d": st.booleans(), "t": truths(), "config": st.booleans(), "clabel": st.sampled_from([False, False, True]),
}), quick=70, thorough=2500)
def surface(c, ctx):
    import matplotlib.pyplot as plt
    from chainconsumer import PlotConfig, Truth
    from chainconsumer.plotting import plot_cloud, plot_contour, plot_point, plot_surface, plot_truths

    two_d = c["two_d"] and c["config"]
    cc, info = consumer(c["s"], {"sigma2d": two_d}, c["t"], {"shade_alpha": 0.7, "show_contour_labels": c["clabel"]})
    sel = drawn(info)
    cols = union(sel)
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    low, _ = panels(ctx, cc.plotter.plot(), cols)
    chains = [cc.get_chain(x[0].name) for x in sel]
    conf = PlotConfig(sigma2d=two_d) if c["config"] else None
    for ax, px, py, i, j in low:
        if i == j:
            continue
        fig, a = plt.subplots()
        paths = plot_surface(a, chains, px, py, *([conf] if conf else []))
        plot_truths(a, [Truth(**t) for t in c["t"]], px=px, py=py)
        fig.canvas.draw()  # the triangle has been drawn too: some colours are resolved then
        same(ctx, content(a, not c["clabel"]), content(ax, not c["clabel"]), f"plot_surface, {px!r}, {py!r}")
        want = {x[2]["cp"] for x in sel if x[2]["cloud"] and x[2]["cp"] and has(x[2], px) and has(x[2], py)}
        ctx.eq(set(paths), want, "colour columns returned by plot_surface")
        # piece by piece
        fig, b = plt.subplots()
        for ch, (_, df, cfg) in zip(chains, sel):
            if not (has(cfg, px) and has(cfg, py)):
                continue
            if cfg["cloud"]:
                plot_cloud(b, ch, px, py)
            if cfg["contour"]:
                plot_contour(b, ch, px, py, *([conf] if conf else []))
            if cfg["point"]:
                plot_point(b, ch, px, py)
        plot_truths(b, [Truth(**t) for t in c["t"]], px=px, py=py)
        fig.canvas.draw()
        same(ctx, content(b, not c["clabel"]), content(ax, not c["clabel"]), f"plot_cloud, plot_contour and plot_point, {px!r}, {py!r}")
        plt.close(fig)
        plt.close(a.figure)
        if any(content(ax).values()):
            ctx.hit()
    ctx.label("config" if c["config"] else "default", f"{len(sel)} chains")


@facet(P, "dist", lambda: st.fixed_dictionaries({
    "s": scenes(min_chains=1, max_chains=1, max_cols=2, cloud=False, point=False, contour=True, smooths=(None, 0, 2), stats=gen.STATS, n=(150, 500)), "summary": st.booleans(), "labels": st.sampled_from([None, None, "L", "$L$", "$H_0$ [km/s]", "Mass [$M_\\odot$]"]),
    "power": st.sampled_from([None, None, 2.0, 0.5]), "height": st.sampled_from([1.0, 0.4]), "bins": st.sampled_from([None, 25]),
    "kde": st.sampled_from([None, 0.6, 1.7]), "grid": st.sampled_from([False, False, False, True]),
    "ls": st.sampled_from(["-", "--", ":"]), "lw": st.sampled_from([1.0, 2.5]),
}), quick=90, thorough=2500)
def dist(c, ctx):
    import matplotlib.pyplot as plt
    from chainconsumer import PlotConfig
    from chainconsumer.plotting import plot_dist

    more = {"histogram_relative_height": c["height"], "linestyle": c["ls"], "linewidth": c["lw"]}
    if c["power"]:
        more["power"] = c["power"]
    if c["bins"]:
        more["bins"] = c["bins"]
    s = c["s"][0]
    if c["kde"] and s["kde"]:
        more["kde"] = c["kde"]
    if c["grid"]:
        # a density given on a grid
        from chainconsumer import Chain, ChainConsumer

        s.update(kde=None, smooth=0)
        rng = np.random.RandomState(s["seed"])
        k = 9 + s["n"] % 13
        mesh = np.meshgrid(*[CENTRE[p] + SPREAD[p] * np.linspace(-3, 3, k) for p in s["cols"]], indexing="ij")
        df = pd.DataFrame({p: m.ravel() for p, m in zip(s["cols"], mesh)})
        df["weight"] = np.exp(-0.5 * sum(((df[p] - CENTRE[p]) / SPREAD[p] - rng.uniform(-1, 1)) ** 2 for p in s["cols"]))
        more.pop("bins", None)
        more.pop("kde", None)
        ch = Chain(samples=df, name="A", color=COLOURS[0], grid=True, shade=s["shade"], statistics=gen.stat(s["stat"]), summary_area=s["area"], **more)
        cc, info = ChainConsumer().add_chain(ch), [(ch, df, s)]
    else:
        cc, info = consumer(c["s"], {}, (), more)
    ch = cc.get_chain(info[0][0].name)
    cols = union(info)
    if len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    low, _ = panels(ctx, cc.plotter.plot(), cols)
    for ax, px, py, i, j in low:
        if i != j:
            continue
        fig, a = plt.subplots()
        labels = {px: c["labels"]} if c["labels"] else {}
        plot_dist(a, ch, px, PlotConfig(labels=labels, summary_font_size=9), summary=c["summary"])
        u, v = curves(a), curves(ax)
        ctx.check(len(u) == 1 and u[0][2] == v[0][2], lambda: f"plot_dist of {px!r} draws {len(u)} curves")
        (x, y, _), (x2, y2, _) = u[0], v[0]
        if s["smooth"] == 0 and not s["kde"]:
            ctx.check(x.shape == x2.shape and np.allclose(x, x2) and np.allclose(y, y2), lambda: f"plot_dist of {px!r}: the histogram differs from the triangle")
        else:
            q = np.linspace(max(x[0], x2[0]), min(x[-1], x2[-1]), 400)
            d = np.abs(np.interp(q, x, y) - np.interp(q, x2, y2)).max() / y2.max()
            ctx.check(d < (0.03 if s["smooth"] != 0 else 0.08), lambda: f"plot_dist of {px!r} differs from the triangle by {d:.3f} of the peak")
            ctx.check(abs(x[0] - x2[0]) + abs(x[-1] - x2[-1]) < (0.2 if s["kde"] else 0.05) * (x2[-1] - x2[0]), lambda: f"plot_dist of {px!r} covers {x[0]} .. {x[-1]} instead of {x2[0]} .. {x2[-1]}")
        b = cc.analysis.get_summary()[ch.name][px]
        bounded = b.lower is not None and b.upper is not None
        fills = F.fills(a)
        ctx.check(len(fills) == int(bool(s["shade"]) and bounded), lambda: f"plot_dist of {px!r}: {len(fills)} shaded regions, bounds {b}")
        looks = [[(q.get_linestyle(), q.get_linewidth(), q.get_zorder()) for q in (*F.lines(axis), *axis.patches)] for axis in (a, ax)]
        ctx.eq(looks[0], looks[1], f"plot_dist of {px!r}: style, width and order of the curve, against the triangle")
        for f in fills:
            w = f.get_paths()[0].vertices[:, 0]
            lo, hi = (x[0], x[-1])
            ctx.check({F.hexof(q) for q in f.get_facecolor()} == {v[0][2]}, lambda: f"plot_dist of {px!r}: shaded in {f.get_facecolor()}, curve {v[0][2]}")
            ctx.check(abs(w.min() - max(b.lower, lo)) < 0.03 * (hi - lo) and abs(w.max() - min(b.upper, hi)) < 0.03 * (hi - lo),
                      lambda: f"plot_dist of {px!r}: shaded from {w.min()} to {w.max()}, summary {b}")
        t = a.get_title()
        if c["summary"]:
            text = cc.analysis.get_parameter_text(b)
            ctx.check(not text or any(text in q for q in maths(t)[0]), lambda: f"plot_dist of {px!r}: title {t!r}, summary {text!r}")
            title_names(ctx, t, labels.get(px, px), f"plot_dist of {px!r}")
            fig.canvas.draw()
        else:
            ctx.check(not t, lambda: f"plot_dist of {px!r}: title {t!r} without a summary")
        plt.close(fig)
        ctx.hit()
    ctx.label("kde" if s["kde"] else f"smooth {s['smooth']}", "summary" if c["summary"] else "no summary")


@facet(P, "bands", lambda: st.fixed_dictionaries({
    "parts": st.lists(st.tuples(st.floats(0.7, 1.4), st.floats(0.4, 1.5), st.floats(10.0, 16.0)), min_size=1, max_size=3), "n": st.integers(900, 2500), "unit": st.sampled_from([1.0, 1e-6, 1e5]),
    "smooth": st.sampled_from([None, 0, 2, 3]), "kde": st.sampled_from([False, False, False, 0.15]), "area": st.sampled_from([0.5, 0.6827, 0.9]), "shade": st.booleans(), "summary": st.booleans(),
    "label": st.sampled_from([None, "$L$", "Long label", "$H_0$ [km/s]"]),
}), quick=30, thorough=800)
def dist_bands(c, ctx):
    """A multimodal chain: the bands that plot_dist shades and states are those of the triangle."""
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from chainconsumer.plotting import plot_dist

    pos, parts = 0.0, []
    for wt, sd, gap in c["parts"]:
        parts.append([wt, pos, sd])
        pos += gap
    x = gen.mixture(parts, c["n"] if not c["kde"] else 500) * c["unit"]
    df = pd.DataFrame({"x": x, "y": np.random.RandomState(1).normal(size=len(x))})
    kw = {"smooth": c["smooth"]} if c["smooth"] is not None else {}
    ch = Chain(samples=df, name="A", color="#2563eb", multimodal=True, summary_area=c["area"], shade=c["shade"], bar_shade=True, kde=c["kde"], **kw)
    conf = PlotConfig(labels={"x": c["label"]} if c["label"] else {})
    cc = ChainConsumer().add_chain(ch)
    cc.set_plot_config(conf)
    tri = cc.plotter.plot(columns=["x", "y"]).axes[0]
    fig, a = plt.subplots()
    plot_dist(a, ch, "x", conf, summary=c["summary"])
    spans = [sorted((f.get_paths()[0].vertices[:, 0].min(), f.get_paths()[0].vertices[:, 0].max()) for f in F.fills(ax)) for ax in (a, tri)]
    if c["shade"]:
        ctx.check(len(spans[0]) == len(spans[1]), lambda: f"plot_dist shades {spans[0]}, the triangle {spans[1]}")
        # the ends may be cut at a slightly different end of the curve
        ctx.close(spans[0], spans[1], "plot_dist: shaded bands against those of the triangle", rtol=0, atol=0.05 * np.ptp(x))
    else:
        ctx.check(not spans[0], "plot_dist shades although shading is off")
    s = cc.analysis.get_summary(columns=["x"])["A"]["x"]
    t = a.get_title()
    if not c["summary"]:
        ctx.check(not t, lambda: f"plot_dist: title {t!r} without a summary")
    elif isinstance(s, list):
        ctx.eq(t, tri.get_title(), "title of plot_dist and of the triangle")
        ctx.eq(len(s), len(spans[1]), "shaded bands in the triangle")
        ctx.hit()
    else:
        ctx.check(cc.analysis.get_parameter_text(s) in t, lambda: f"plot_dist: title {t!r}, summary {s}")
    plt.close(fig)
    ctx.label(f"{len(s) if isinstance(s, list) else 1} bands")
