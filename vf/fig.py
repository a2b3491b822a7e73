"""Reading matplotlib figures: what is drawn where, in data coordinates, without knowing how it was drawn."""

from __future__ import annotations

import numpy as np
from matplotlib.collections import PathCollection, PolyCollection
from matplotlib.colors import to_hex, to_rgba


def shown_axes(fig):
    return [ax for ax in fig.axes if ax.axison]


def hexof(color) -> str:
    return to_hex(to_rgba(color))


def lines(ax):
    """Data curves: lines that are not full-height/full-width reference lines."""
    return [ln for ln in ax.lines if not is_vline(ax, ln) and not is_hline(ax, ln)]


def is_vline(ax, ln) -> bool:
    return len(ln.get_xdata()) == 2 and ln.get_transform() == ax.get_xaxis_transform(which="grid")


def is_hline(ax, ln) -> bool:
    return len(ln.get_ydata()) == 2 and ln.get_transform() == ax.get_yaxis_transform(which="grid")


def vlines(ax):
    return [ln for ln in ax.lines if is_vline(ax, ln)]


def hlines(ax):
    return [ln for ln in ax.lines if is_hline(ax, ln)]


def scatters(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def fills(ax):
    """Shaded polygons made by fill_between (not contour sets, not scatters)."""
    return [c for c in ax.collections if isinstance(c, PolyCollection) and not isinstance(c, PathCollection)]


def contour_sets(ax):
    from matplotlib.contour import ContourSet

    return [c for c in ax.collections if isinstance(c, ContourSet)]


def offsets(coll) -> np.ndarray:
    return np.asarray(np.ma.getdata(coll.get_offsets()), dtype=float)


def visible_tick_labels(ax, which: str) -> list[str]:
    """Non-empty texts of the tick labels that are drawn on an axis after a draw."""
    axis = ax.xaxis if which == "x" else ax.yaxis
    lo, hi = sorted(axis.get_view_interval())
    out = []
    for minor in (False, True):
        for t in (axis.get_minor_ticks() if minor else axis.get_major_ticks()):
            loc = t.get_loc()
            pad = 1e-9 * abs(hi - lo)
            if not (lo - pad <= loc <= hi + pad):
                continue
            for lab in (t.label1, t.label2):
                if lab.get_visible() and t.get_visible() and lab.get_text().strip():
                    out.append(lab.get_text())
    return out


def ticks_in_view(ax, which: str) -> list[float]:
    axis = ax.xaxis if which == "x" else ax.yaxis
    lo, hi = sorted(axis.get_view_interval())
    locs = list(axis.get_majorticklocs()) + list(axis.get_minorticklocs())
    return [x for x in locs if lo <= x <= hi]


def all_texts(fig) -> list[str]:
    from matplotlib.text import Text

    return [t.get_text() for t in fig.findobj(Text) if t.get_visible() and t.get_text().strip()]


def legend_entries(fig):
    """[(label, line colour, text)] of the legends of a figure, in drawing order."""
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        if leg is not None:
            for h, t in zip(leg.legend_handles, leg.get_texts()):
                out.append((t.get_text().strip(), h, t))
    return out


def find_axes(fig, px: str | None, py: str | None, label=lambda s: s):
    raise NotImplementedError


def triangle(fig, n: int, hists: bool = True):
    """The n x n (or (n-1) x (n-1)) panels of a triangle plot as a 2D list, in reading order."""
    m = n if hists else n - 1
    axes = [ax for ax in fig.axes if getattr(ax, "_colorbar", None) is None][: m * m]
    return [axes[i * m:(i + 1) * m] for i in range(m)]


def curve_at(xs, ys, q):
    return np.interp(q, xs, ys)
