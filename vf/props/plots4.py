"""V16: presentation settings."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Excluded, facet, prop
from .plots import consumer, needs_range, panels, scenes, selection

P = prop(
    "V16",
    "one or more settings of the plot configuration (font sizes, number and rotation of ticks, spacing) away from their defaults, in triangle, distribution, walk and summary plots of random chains; "
    "the figures are drawn and the texts, ticks and panel positions are measured. Non-trivial: at least one text of a claimed kind was measured.",
)


def texts_in_view(ax, which):
    """Major tick labels with a text whose tick lies within the limits."""
    axis = ax.xaxis if which == "x" else ax.yaxis
    lo, hi = sorted(axis.get_view_interval())
    out = []
    for t in axis.get_major_ticks():
        if lo <= t.get_loc() <= hi and t.get_visible() and t.label1.get_visible() and t.label1.get_text().strip():
            out.append(t.label1)
    return out


def settings():
    return st.fixed_dictionaries({
        "label": st.sampled_from([None, 7, 16]), "tick": st.sampled_from([None, 5, 13]), "max": st.sampled_from([None, 3, 4, 7]), "rot": st.booleans(),
        "clabel": st.sampled_from([None, 4, 15]), "summary": st.sampled_from([None, 8, 17]),
    })


def config(c, **more):
    names = {"label": "label_font_size", "tick": "tick_font_size", "max": "max_ticks", "clabel": "contour_label_font_size", "summary": "summary_font_size"}
    return {names[k]: v for k, v in c.items() if k in names and v is not None} | {"diagonal_tick_labels": c["rot"]} | more


def ticks(ctx, c, ax, which, what, log, labelled=True):
    n = 0
    labels = texts_in_view(ax, which)
    if labelled:
        for t in labels:
            ctx.close(t.get_fontsize(), c["tick"] or 10, f"{what}: font size of tick label {t.get_text()!r}")
            ctx.close(t.get_rotation() % 360, 45 if c["rot"] else 0, f"{what}: rotation of tick label {t.get_text()!r}")
            n += 1
    if not log:
        ctx.check(len(labels) <= (c["max"] or 5), lambda: f"{what}: {len(labels)} tick labels {[t.get_text() for t in labels]} with max_ticks {c['max'] or 5}")
    return n


@facet(P, "triangle", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=4, smooths=(None, 0), kde=False, n=(60, 150), units=(1.0, 1.0, 1e-6, 1e7)), "c": settings(), "hists": st.booleans(), "flip": st.booleans(),
    "log": st.sampled_from([False, False, True]), "spacing": st.sampled_from([None, 0.0, 1.0, 4.0]), "clabels": st.booleans(),
}), quick=90, thorough=2500)
def triangle_settings(c, ctx):
    q = c["c"]
    s = [dict(x, cp=None) for x in c["s"]]
    cc, info = consumer(s, more={"show_contour_labels": c["clabels"]})
    kw, sel, cols = selection(info, "all", np.random.RandomState(0))
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    logs = [p for p in cols if all(p not in df or df[p].min() > 0 for _, df, _ in sel)] if c["log"] else []
    from chainconsumer import PlotConfig

    cc.set_plot_config(PlotConfig(**config(q, plot_hists=c["hists"], flip=c["flip"], log_scales=logs, spacing=c["spacing"], show_legend=False)))
    fig = cc.plotter.plot(**kw)
    low, up = panels(ctx, fig, cols, c["hists"])
    m = len(cols) - (not c["hists"])
    flipped = c["flip"] and c["hists"] and len(cols) == 2
    n = 0
    for ax, px, py, i, j in low:
        what = f"panel {px!r}, {py!r}"
        for which, p in (("x", px), ("y", py)):
            label = ax.xaxis.label if which == "x" else ax.yaxis.label
            if label.get_text().strip():
                ctx.close(label.get_fontsize(), q["label"] or 12, f"{what}: font size of the {which} label")
                n += 1
            n += ticks(ctx, q, ax, which, f"{which} axis of {what}", p in logs)
        if px != py:
            for t in ax.texts:
                ctx.close(t.get_fontsize(), q["clabel"] or 10, f"{what}: font size of contour label {t.get_text()!r}")
                n += 1
        if ax.get_title():
            ctx.close(ax.title.get_fontsize(), q["summary"] or 12, f"{what}: font size of the summary")
            n += 1
    for ax in up:
        frame = ax.get_visible() and ax.axison and ax.get_frame_on() and any(sp.get_visible() for sp in ax.spines.values())
        ctx.check(not frame, "an unused panel above the diagonal shows a frame")
    if m > 1:
        with ctx.reading("panel positions"):
            axes = [ax for ax in fig.axes]
            box = [[axes[i * m + j].get_position() for j in range(m)] for i in range(m)]
            spacing = (1.0 if m < 6 else 0.0) if c["spacing"] is None else c["spacing"]
            width, height = np.mean([b.width for b in box[0]]), np.mean([r[0].height for r in box])
            for k in range(m - 1):
                ctx.close((box[0][k + 1].x0 - box[0][k].x1) / width, 0.05 * spacing, "horizontal gap between panels, in panel widths", rtol=1e-6, atol=1e-6)
                ctx.close((box[k][0].y0 - box[k + 1][0].y1) / height, 0.05 * spacing, "vertical gap between panels, in panel heights", rtol=1e-6, atol=1e-6)
    if n:
        ctx.hit()
    ctx.label("flip" if flipped else "square", f"{m} panels a side")


@facet(P, "large", lambda: st.fixed_dictionaries({
    "n": st.integers(5, 8), "seed": gen.seeds, "c": settings(), "hists": st.booleans(), "spacing": st.sampled_from([None, None, None, 0.0, 2.0]),
}), quick=24, thorough=400)
def large_triangle(c, ctx):
    """Triangles of five to eight parameters: the automatic spacing closes the gaps."""
    import pandas as pd

    from chainconsumer import Chain, ChainConsumer, PlotConfig

    q = c["c"]
    rng = np.random.RandomState(c["seed"])
    cols = [f"p{k}" for k in range(c["n"])]
    cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({p: rng.normal(size=80) for p in cols}), name="A", plot_cloud=True, plot_contour=False, smooth=0))
    cc.set_plot_config(PlotConfig(**config(q, plot_hists=c["hists"], spacing=c["spacing"])))
    fig = cc.plotter.plot(figsize=0.5)
    m = c["n"] - (not c["hists"])
    low, _ = panels(ctx, fig, cols, c["hists"])
    for ax, px, py, _i, _j in low:
        for which in "xy":
            ticks(ctx, q, ax, which, f"{which} axis of panel {px!r}, {py!r}", False)
    with ctx.reading("panel positions"):
        box = [[fig.axes[i * m + j].get_position() for j in range(m)] for i in range(m)]
        spacing = (1.0 if m < 6 else 0.0) if c["spacing"] is None else c["spacing"]
        ctx.close((box[0][1].x0 - box[0][0].x1) / box[0][0].width, 0.05 * spacing, "horizontal gap between panels, in panel widths", rtol=1e-6, atol=1e-6)
        ctx.close((box[0][0].y0 - box[1][0].y1) / box[0][0].height, 0.05 * spacing, "vertical gap between panels, in panel heights", rtol=1e-6, atol=1e-6)
    ctx.hit()


@facet(P, "others", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=3, smooths=(None, 0), kde=False, n=(60, 150), units=(1.0, 1.0, 1e-6, 1e7), contour=True), "c": settings(), "kind": st.sampled_from(["distributions", "walks", "summary", "errorbar"]),
    "log": st.sampled_from([False, False, True]),
}), quick=90, thorough=2500)
def other_settings(c, ctx):
    q = c["c"]
    s = [dict(x, cp=None, cloud=False) for x in c["s"]]
    cc, info = consumer(s)
    kw, sel, cols = selection(info, "all", np.random.RandomState(0))
    needs_range(sel, cols)
    logs = [p for p in cols if all(p not in df or df[p].min() > 0 for _, df, _ in sel)] if c["log"] else []
    from chainconsumer import PlotConfig

    cc.set_plot_config(PlotConfig(**config(q, log_scales=logs)))
    n = 0
    if c["kind"] == "distributions":
        fig = cc.plotter.plot_distributions(**kw)
        fig.canvas.draw()
        for ax, p in zip(fig.axes, cols):
            ctx.close(ax.xaxis.label.get_fontsize(), q["label"] or 12, f"distribution of {p!r}: font size of the label")
            n += 1 + ticks(ctx, q, ax, "x", f"distribution of {p!r}", p in logs)
            if ax.get_title():
                ctx.close(ax.title.get_fontsize(), q["summary"] or 12, f"distribution of {p!r}: font size of the summary")
    elif c["kind"] == "walks":
        fig = cc.plotter.plot_walks(plot_weights=False, plot_posterior=False)
        fig.canvas.draw()
        for ax, p in zip(fig.axes, cols):
            n += 1 + ticks(ctx, q, ax, "y", f"walk of {p!r}", p in logs, labelled=False)
    else:
        fig = cc.plotter.plot_summary(errorbar=c["kind"] == "errorbar")
        fig.canvas.draw()
        names = {x[0].name for x in sel}
        with ctx.reading("names and titles"):
            for ax in fig.axes:
                for t in ax.texts:
                    if t.get_text() in names:
                        ctx.close(t.get_fontsize(), q["label"] or 12, f"summary: font size of the name {t.get_text()!r}")
                        n += 1
                if ax.get_title():
                    ctx.close(ax.title.get_fontsize(), q["label"] or 12, f"summary: font size of the title {ax.get_title()!r}")
                    n += 1
    if n:
        ctx.hit()
    ctx.label(c["kind"])


@facet(P, "legend and bars", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=3, max_cols=3, smooths=(None, 0), kde=False, n=(40, 100), lp=True), "c": settings(), "kw": st.sampled_from([{}, {}, {"fontsize": 6}, {"loc": "upper left"}]),
}), quick=50, thorough=1500)
def legend_settings(c, ctx):
    from chainconsumer import PlotConfig

    q = c["c"]
    cc, info = consumer(c["s"])
    kw, sel, cols = selection(info, "all", np.random.RandomState(0))
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    cc.set_plot_config(PlotConfig(**config(q, legend_kwargs=c["kw"], show_legend=True)))
    fig = cc.plotter.plot(**kw)
    with ctx.reading("legends and colour bars"):
        legs = [ax.get_legend() for ax in fig.axes if ax.get_legend() is not None]
        bars = [ax for ax in fig.axes if hasattr(ax, "_colorbar")]
    ctx.eq(len(legs), 1, "legends")
    for t in legs[0].get_texts():
        ctx.close(t.get_fontsize(), c["kw"].get("fontsize", q["label"] or 12), f"font size of the legend entry {t.get_text()!r}")
    for ax in bars:
        ctx.close(ax.yaxis.label.get_fontsize(), q["label"] or 12, f"font size of the colour-bar label {ax.get_ylabel()!r}")
        ctx.label("colour bar")
    ctx.hit()
