"""V17: tick labels read as the values at which their ticks stand."""

from __future__ import annotations

import re

import numpy as np
from hypothesis import strategies as st

from .. import fig as F
from .. import gen
from ..core import Excluded, facet, prop
from .plots import consumer, needs_range, panels, scenes, selection

P = prop(
    "V17",
    "every plot of random chains at magnitudes from 1e-9 to 1e9, far from the origin relative to their spread, on linear and logarithmic axes and with any tick settings; each visible tick label is read as a number, "
    "with the exponent or offset that the axis or its label states, and compared with the position of its tick. Non-trivial: some axis states an exponent or offset or is logarithmic.",
)
NUM = r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?"


def plain(text: str) -> str:
    text = text.replace("−", "-").replace("$", "").strip()
    return re.sub(r"\\mathdefault\{((?:[^{}]|\{[^{}]*\})*)\}", r"\1", text)


def number(text: str):
    """The number a tick label states, or None."""
    t = plain(text)
    if re.fullmatch(NUM, t):
        return float(t)
    m = re.fullmatch(r"([-+]?)(?:(\d+(?:\.\d+)?)\\times)?10\^\{?([-+]?\d+)\}?", t)
    if m:
        return float(m[1] + "1") * float(m[2] or 1) * 10.0 ** int(m[3])
    return None


def common(text: str):
    """(factor, offset) of a text such as '1e7', '+1e6' or '1e-5+1.2e2', or None."""
    t = plain(text)
    if not t:
        return 1.0, 0.0
    m = re.fullmatch(rf"(\d+(?:\.\d+)?(?:e[-+]?\d+)?)?([-+]\d+(?:\.\d+)?(?:e[-+]?\d+)?)?", t)
    return (float(m[1] or 1), float(m[2] or 0)) if m else None


def stated(ax, which):
    """The exponent or offset shown for an axis: next to the axis or in brackets at the end of its label."""
    axis = ax.xaxis if which == "x" else ax.yaxis
    off = axis.get_offset_text()
    near = off.get_text() if off.get_visible() else ""
    m = re.search(r"\[([^\[\]]*)\]\s*$", axis.label.get_text()) if axis.label.get_visible() else None
    return near, (m[1] if m and common(m[1]) else "")  # other brackets, such as a unit, belong to the label


def read(ctx, ax, which, what):
    """Compares the labels of an axis with its ticks; returns whether there was something to convert."""
    axis = ax.xaxis if which == "x" else ax.yaxis
    lo, hi = sorted(axis.get_view_interval())
    near, inside = stated(ax, which)
    ctx.check(not (near.strip() and inside.strip()), lambda: f"{what}: the exponent is stated twice, {near!r} and {inside!r}")
    text = near.strip() or inside.strip()
    labels = []
    for minor in (False, True):
        for t in axis.get_minor_ticks() if minor else axis.get_major_ticks():
            if lo <= t.get_loc() <= hi and t.get_visible():
                labels += [(t.get_loc(), x.get_text()) for x in (t.label1, t.label2) if x.get_visible() and x.get_text().strip()]
    if not labels:
        ctx.check(not text, lambda: f"{what} has no tick labels and states {text!r}")
        return False
    fo = common(text)
    ctx.check(fo is not None, lambda: f"{what} states {text!r}, which is not an exponent or offset")
    factor, offset = fo
    log = axis.get_scale() == "log"
    for loc, lab in labels:
        v = number(lab)
        ctx.check(v is not None, lambda: f"{what}: the tick label {lab!r} is not a number")
        v = v * factor + offset
        tol = 1e-4 * abs(loc) if log else 3e-3 * (hi - lo)
        ctx.check(abs(v - loc) <= tol, lambda: f"{what}: the tick at {float(loc)!r} is labelled {lab!r}" + (f" with {text!r}" if text else "") + f", which reads {v!r}")
    return log or bool(text)


def shift_scale():
    return st.fixed_dictionaries({"unit": st.sampled_from([1.0, 1e-9, 1e-4, 1e3, 1e7, 1e9]), "far": st.sampled_from([0, 0, 0, 50, 1e4, -1e4, 123456.0, 1e7])})


def build(c, cloud):
    s = [dict(x, cloud=x["cloud"] and cloud, cp=x["cp"] if cloud else None) for x in c["s"]]
    from . import plots as PL

    cc = None
    info = []
    from chainconsumer import ChainConsumer

    cc = ChainConsumer()
    for i, k in enumerate(s):
        ch, df = PL.chain_of(k, i)
        df = ch.samples.copy()
        for p in k["cols"]:
            df[p] = (df[p] + c["u"]["far"] * PL.SPREAD[p] + (40 * PL.SPREAD[p] + abs(PL.CENTRE[p]) if c["log"] else 0) * (c["u"]["far"] == 0)) * c["u"]["unit"]
        kw = dict(name=PL.NAMES[i], color=PL.COLOURS[i], plot_contour=k["contour"], plot_cloud=k["cloud"], plot_point=k["point"], shade=k["shade"], smooth=0, bins=15)
        if k["cp"]:
            kw["color_param"] = k["cp"]
        from chainconsumer import Chain

        cc.add_chain(Chain(samples=df, **kw))
        info.append((cc.get_chain(PL.NAMES[i]), df, k))
    return cc, info


def config(c, logs):
    from chainconsumer import PlotConfig

    kw = {"log_scales": logs, "flip": c.get("flip", False), "plot_hists": c.get("hists", True), "diagonal_tick_labels": c["rot"], "labels": {"x": "Mass", "z": "$z_0$ [km]"} if c["labels"] else {}}
    if c["max"]:
        kw["max_ticks"] = c["max"]
    return PlotConfig(**kw)


def loggable(c, sel, cols):
    return [p for p in cols if all(p not in df or df[p].min() > 0 for _, df, _ in sel)] if c["log"] else []


@facet(P, "triangle", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=2, max_cols=3, smooths=(0,), kde=False, n=(60, 150)), "u": shift_scale(), "hists": st.sampled_from([True, True, False]), "flip": st.booleans(), "log": st.sampled_from([False, False, True]),
    "rot": st.booleans(), "max": st.sampled_from([None, None, 3, 8]), "labels": st.booleans(),
}), quick=120, thorough=3000)
def triangle_ticks(c, ctx):
    cc, info = build(c, True)
    kw, sel, cols = selection(info, "all", np.random.RandomState(0))
    if not sel or len(cols) < 2:
        raise Excluded("fewer than two parameters to show")
    needs_range(sel, cols)
    logs = loggable(c, sel, cols)
    cc.set_plot_config(config(c, logs))
    fig = cc.plotter.plot(**kw)
    fig.canvas.draw()
    low, up = panels(ctx, fig, cols, c["hists"])
    some = False
    flipped = c["flip"] and c["hists"] and len(cols) == 2
    grid = {}
    for ax, px, py, i, j in low:
        for which in "xy":
            some |= read(ctx, ax, which, f"{which} axis of panel {px!r}, {py!r}")
        turned = flipped and px == py and i == 1
        if not turned and px not in logs:
            grid.setdefault(("x", px), []).append(F.ticks_in_view(ax, "x"))
        if px != py and py not in logs:
            grid.setdefault(("y", py), []).append(F.ticks_in_view(ax, "y"))
    for (which, p), all_ticks in grid.items():
        for t in all_ticks[:-1]:
            if t and all_ticks[-1]:
                ctx.eq([float(f"{x:.12g}") for x in t], [float(f"{x:.12g}") for x in all_ticks[-1]], f"{which} ticks of {p!r} in the panels of its column or row")
    for ax in fig.axes:
        if hasattr(ax, "_colorbar"):
            some |= read(ctx, ax, "y", f"colour bar {ax.get_ylabel()!r}")
    if some:
        ctx.hit()
    ctx.label("log" if logs else "linear", f"unit {c['u']['unit']:g}", f"far {c['u']['far']:g}")


@facet(P, "others", lambda: st.fixed_dictionaries({
    "s": scenes(max_chains=3, max_cols=3, smooths=(0,), kde=False, n=(60, 150), contour=True), "u": shift_scale(), "kind": st.sampled_from(["distributions", "walks", "walks all", "summary", "errorbar"]),
    "log": st.sampled_from([False, False, True]), "rot": st.booleans(), "max": st.sampled_from([None, None, 3, 8]), "labels": st.booleans(),
}), quick=120, thorough=3000)
def other_ticks(c, ctx):
    cc, info = build(c, False)
    kw, sel, cols = selection(info, "all", np.random.RandomState(0))
    needs_range(sel, cols)
    logs = loggable(c, sel, cols)
    cc.set_plot_config(config(c, logs))
    if c["kind"] == "distributions":
        fig = cc.plotter.plot_distributions(**kw)
    elif c["kind"].startswith("walks"):
        allp = c["kind"] != "walks"
        fig = cc.plotter.plot_walks(plot_weights=allp, plot_posterior=allp)
    else:
        fig = cc.plotter.plot_summary(errorbar=c["kind"] == "errorbar")
    fig.canvas.draw()
    some = False
    with ctx.reading("axes"):
        for k, ax in enumerate(fig.axes):
            if ax.get_visible() and ax.axison:
                for which in "xy":
                    some |= read(ctx, ax, which, f"{c['kind']}: {which} axis of panel {k}")
    if some:
        ctx.hit()
    ctx.label(c["kind"], "log" if logs else "linear")
