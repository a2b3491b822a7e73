"""R: the collection of chains - registry histories, configuration precedence, purity of analysis and plotting."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .. import fig as F
from .. import gen
from ..core import Ctx, Excluded, facet, prop
from .chain import make, same_frame

SMALL = {"bins": 10, "smooth": 1}

# ------------------------------------------------------------------------------------------------ R01
P = prop(
    "R01",
    "histories of adding, removing (by name or object), re-adding, marking, looking up and configuring, with valid and invalid "
    "arguments, against an insertion-ordered dictionary model; the model is compared after every step. Non-trivial: at least one "
    "removal or refused operation after an addition.",
)
NAMES = ["a", "b", "c", "a b", "A", ""]


@st.composite
def histories(draw):
    op = st.one_of(
        st.tuples(st.just("add"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("add"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("marker"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("remove"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("remove object"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("get"), st.sampled_from(NAMES), st.integers(0, 4)),
        st.tuples(st.just("summary"), st.just(""), st.integers(0, 4)),
        st.tuples(st.just("distributions"), st.just(""), st.integers(0, 4)),
        st.tuples(st.just("truth"), st.just(""), st.integers(0, 4)),
        st.tuples(st.just("override"), st.just(""), st.integers(0, 4)),
        st.tuples(st.just("config"), st.just(""), st.integers(0, 4)),
    )
    return {"ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=14))]}


def reg_chain(name: str, k: int):
    rng = np.random.RandomState(k)
    import pandas as pd

    from chainconsumer import Chain

    df = pd.DataFrame({"x": rng.normal(k, 1, 40), "y": rng.normal(0, 1 + k, 40)})
    if k % 2:
        df["log_posterior"] = -0.5 * (df["x"] - k) ** 2
    kind = [{}, {}, {"plot_contour": False}, {"plot_contour": False, "plot_point": True}, {"plot_cloud": True}][k]
    return Chain(samples=df, name=name, statistics=gen.stat("cumulative"), **SMALL, **kind)


@facet(P, "history", histories, quick=500)
def history(c, ctx):
    from chainconsumer import ChainConfig, ChainConsumer, PlotConfig, Truth

    cc = ChainConsumer()
    model: dict[str, object] = {}
    kinds: dict[str, str] = {}
    interesting = False
    other = ChainConsumer().add_chain(reg_chain("bystander", 0))
    for op, name, k in c["ops"]:
        if op in ("add", "marker"):
            ch = reg_chain(name, k)
            if op == "add" and name in model and k >= 3:
                ch = model[name]  # the very chain that is there

            def do():
                if op == "add":
                    return cc.add_chain(ch)
                where = {"x": float(k), "y": 1.0} if k % 2 else {"y": 1.0, "x": float(k)}
                color = [None, "#112233", [17 / 255, 34 / 255, 51 / 255], np.array([17, 34, 51]) / 255, "red"][k]
                return cc.add_marker(where, name=name, marker_size=5.0 + k, **({} if color is None else {"color": color}))

            if name in model:
                ctx.rejects(do, f"adding a second chain called {name!r}")
                interesting = True
            else:
                ctx.check(do() is cc, f"{op} does not return the collection")
                model[name] = ch if op == "add" else cc.get_chain(name)
                kinds[name] = "contour" if model[name].plot_contour else "none"
                if op == "marker":
                    got = cc.get_chain(name)
                    ctx.close(got.samples[["x", "y"]].to_numpy(), [[float(k), 1.0]], "location of the marker", rtol=0)
                    ctx.check(got.plot_point and not got.plot_contour, "a marker is drawn as a point")
                    ctx.eq(list(got.data_columns), ["x", "y"] if k % 2 else ["y", "x"], "parameters of the marker")
                    if k in (1, 2, 3):
                        ctx.eq(got.color, "#112233", "colour of the marker")
        elif op in ("remove", "remove object"):
            arg = name if op == "remove" else ((model.get(name) if k < 3 else None) or reg_chain(name, k))
            if name in model:
                ctx.check(cc.remove_chain(arg) is cc, "removal does not return the collection")
                del model[name]
                interesting = True
            else:
                ctx.rejects(lambda: cc.remove_chain(arg), f"removing {name!r}, which is not there")
        elif op == "get":
            if name in model:
                ctx.check(cc.get_chain(name) is model[name], f"lookup of {name!r} gives another chain")
            else:
                ctx.rejects(lambda: cc.get_chain(name), f"lookup of {name!r}, which is not there")
        elif op == "summary":
            out = cc.analysis.get_summary() if model else {}
            ctx.eq(list(out), list(model), "chains of the summary")
            for nm in out:
                ctx.eq(sorted(out[nm]), ["x", "y"], f"parameters of the summary of {nm!r}")
        elif op == "distributions" and any(v == "contour" for n_, v in kinds.items() if n_ in model):
            f = cc.plotter.plot_distributions()
            n = sum(1 for m in model if kinds[m] == "contour")
            ctx.eq([len(F.lines(ax)) for ax in F.shown_axes(f)], [n, n], "curves drawn for the chains")
        elif op == "truth":
            ctx.check(cc.add_truth(Truth(location={"x": float(k)})) is cc, "add_truth does not return the collection")
        elif op == "override":
            ctx.check(cc.set_override(ChainConfig(linewidth=1.0 + k)) is cc, "set_override does not return the collection")
        elif op == "config":
            ctx.check(cc.set_plot_config(PlotConfig(max_ticks=k + 2)) is cc, "set_plot_config does not return the collection")
        ctx.eq(cc.get_names(), list(model), f"names after {op}")
        for nm, ch in model.items():
            ctx.check(cc.get_chain(nm) is ch, f"chain {nm!r} changed after {op}")
        want = [n_ for n_, ch in model.items() if ch.log_posterior is not None]
        ctx.eq(list(cc.analysis.get_max_posteriors()), want, f"maximum posteriors after {op}")
        ctx.eq(other.get_names(), ["bystander"], "another collection")
        ctx.label(op)
    if interesting:
        ctx.hit()


# ------------------------------------------------------------------------------------------------ R02
P = prop(
    "R02",
    "collections of 1-14 chains with random explicit settings, kinds (contour, point, cloud) and an optional override; oracle: override, "
    "else explicit, else documented automatic value, read from the drawn curves, shading and legend. Non-trivial: two or more chains "
    "or an override, with at least one explicit setting.",
)
HEX = ["#112233", "#abcdef", "#ff0080", "#00aa00"]
STYLE = st.fixed_dictionaries({}, optional={
    "color": st.sampled_from(HEX), "linestyle": st.sampled_from(["-", "--", ":"]), "linewidth": st.sampled_from([0.5, 1.0, 2.5]),
    "bar_shade": st.booleans(), "zorder": st.sampled_from([3, 10, 17])})


@st.composite
def configs(draw):
    kinds = draw(st.lists(st.sampled_from(["contour", "contour", "contour", "contour", "point", "cloud"]), min_size=1, max_size=9))
    if "contour" not in kinds:
        kinds[draw(st.integers(0, len(kinds) - 1))] = "contour"
    return {
        "kinds": kinds, "own": [draw(STYLE) for _ in kinds], "over": draw(st.one_of(st.none(), STYLE)), "late": draw(st.booleans()), "seed": draw(gen.seeds),
        "names": draw(st.booleans()), "twice": draw(st.booleans())}


def styled(i: int, kind: str, own: dict, seed: int, **kw):
    import pandas as pd

    from chainconsumer import Chain

    rng = np.random.RandomState((seed + i) % 2**31)
    df = pd.DataFrame({"x": rng.normal(0, 1, 40), "y": rng.normal(0, 1, 40), "log_posterior": rng.normal(size=40)})
    flags = {"contour": {}, "point": {"plot_contour": False, "plot_point": True}, "cloud": {"plot_contour": False, "plot_cloud": True}}[kind]
    return Chain(samples=df, name=f"c{i}", statistics=gen.stat("cumulative"), **SMALL, **flags, **own, **kw)


@facet(P, "styles", configs, quick=150)
def styles(c, ctx):
    from chainconsumer import ChainConfig, ChainConsumer

    cc = ChainConsumer()
    chains = [styled(i, k, o, c["seed"]) for i, (k, o) in enumerate(zip(c["kinds"], c["own"]))]
    if c["over"] is not None and not c["late"]:
        cc.set_override(ChainConfig(**c["over"]))
    for ch in chains:
        cc.add_chain(ch)
    if c["over"] is not None and c["late"]:
        cc.set_override(ChainConfig(**c["over"]))
    over = c["over"] or {}
    n_contour = c["kinds"].count("contour")
    before = [ch.model_dump(exclude={"samples"}) for ch in chains]
    want = []
    for k, own in zip(c["kinds"], c["own"]):
        if k != "contour":
            continue
        d = {"linestyle": "-", "linewidth": 1.0, "bar_shade": n_contour < 5, "zorder": 10, "color": None}
        d.update(own)
        d.update(over)
        want.append(d)
    for _ in range(2 if c["twice"] else 1):
        fig = cc.plotter.plot_distributions(chains=[ch.name for ch in chains] if c["names"] else None)
        seen_colors = None
        for ax in F.shown_axes(fig):
            with ctx.reading("curves"):
                ls = F.lines(ax)
                ctx.eq(len(ls), len(want), "number of curves")
                cols = []
                for ln, d in zip(ls, want):
                    ctx.eq(ln.get_linestyle(), d["linestyle"], "line style")
                    ctx.eq(ln.get_linewidth(), d["linewidth"], "line width")
                    ctx.eq(ln.get_zorder(), d["zorder"], "drawing order")
                    if d["color"] is not None:
                        ctx.eq(F.hexof(ln.get_color()), d["color"], "colour")
                    cols.append(F.hexof(ln.get_color()))
                shaded = sorted(F.hexof(f_.get_facecolor()[0]) for f_ in F.fills(ax))
                ctx.eq(shaded, sorted(x for x, d in zip(cols, want) if d["bar_shade"]), "colours of the shaded curves")
                auto = [x for x, d in zip(cols, want) if d["color"] is None]
                ctx.eq(len(set(auto)), len(auto), "number of distinct automatic colours")
                ctx.check(seen_colors is None or seen_colors == cols, "colours differ between parameters")
                seen_colors = cols
        # the legend and the summary plot tell the same colours
        sf = cc.plotter.plot_summary(errorbar=True)
        txt = {t.get_text(): F.hexof(t.get_color()) for ax in sf.axes for t in ax.texts}
        i = 0
        for ch, k in zip(chains, c["kinds"]):
            if k == "contour":
                ctx.eq(txt.get(ch.name), seen_colors[i], f"colour of {ch.name} in the summary plot")
                i += 1
    ctx.eq([ch.model_dump(exclude={"samples"}) for ch in chains], before, "configuration of the chains after plotting")
    if (len(chains) > 1 or over) and any(c["own"]):
        ctx.hit()
    ctx.label(f"chains {len(chains)}", "override" if over else "no override")


@st.composite
def contour_configs(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 12)))
    own = st.fixed_dictionaries({}, optional={
        "sigmas": st.sampled_from([[0, 1], [0, 1, 2, 3], [1, 2], [0, 0.5]]), "shade": st.booleans(), "shade_alpha": st.sampled_from([0.2, 0.9]),
        "show_contour_labels": st.booleans(), "color": st.sampled_from(HEX)})
    return {"own": [draw(own) for _ in range(n)], "over": draw(st.one_of(st.none(), own)), "points": draw(st.integers(0, 2)),
            "kind": draw(st.sampled_from(["point", "cloud"])), "force": draw(st.sampled_from([False, False, True])), "none": draw(st.sampled_from([False] * 4 + [True])), "seed": draw(gen.seeds)}


@facet(P, "contours", contour_configs, quick=64)
def contours(c, ctx):
    from scipy.stats import norm

    from chainconsumer import ChainConfig, ChainConsumer

    cc = ChainConsumer()
    own = [] if c["none"] and c["points"] else c["own"]
    for i, o in enumerate(own):
        cc.add_chain(styled(i, "contour", o, c["seed"]))
    for i in range(c["points"]):
        cc.add_chain(styled(len(own) + i, c["kind"], {}, c["seed"]))
    over = dict(c["over"] or {})
    if c["force"] and c["points"]:  # contours for the other chains as well
        over["plot_contour"] = True
        own = own + [{}] * c["points"]
    n = len(own)
    if over:
        cc.set_override(ChainConfig(**over))
    if not n and c["kind"] == "point":
        raise Excluded("nothing spans a range")
    fig = cc.plotter.plot(figsize=3)
    panel = F.triangle(fig, 2)[1][0]
    sets = F.contour_sets(panel)
    want = []
    for o in own:
        # contour labels halve the automatic shading
        alpha = 1.0 / np.sqrt(n) * (0.5 if {**o, **over}.get("show_contour_labels") else 1.0)
        d = {"sigmas": [0, 1, 2], "shade": n < 5, "shade_alpha": alpha, "color": None}
        d.update(o)
        d.update(over)
        want.append(d)
    with ctx.reading("contours"):
        lined = [s for s in sets if not s.filled]
        filled = [s for s in sets if s.filled]
        ctx.eq(len(lined), n, "chains with contour lines")
        for s, d in zip(lined, want):
            ctx.close(s.levels, 2 * norm.cdf(d["sigmas"]) - 1, "levels of the contour lines", atol=1e-12)
        shaded = [d for d in want if d["shade"] and d["shade_alpha"] > 0]
        ctx.eq(len(filled), len(shaded), "chains with shaded contours")
        for s, d in zip(filled, shaded):
            ctx.close(s.levels, 2 * norm.cdf(d["sigmas"]) - 1, "levels of the shading", atol=1e-12)
            ctx.close(s.get_alpha(), d["shade_alpha"], "opacity of the shading", rtol=1e-9)
    if n > 1 or over:
        ctx.hit()
    ctx.label(f"contour chains {n}", "override" if over else "no override")


@facet(P, "many colours", lambda: st.fixed_dictionaries({"n": st.integers(10, 100), "own": st.lists(st.integers(0, 99), max_size=5), "seed": gen.seeds}), quick=16)
def many(c, ctx):
    from chainconsumer import ChainConsumer

    cc = ChainConsumer()
    for i in range(c["n"]):
        cc.add_chain(styled(i, "contour", {"color": "#010203"} if i in c["own"] else {}, c["seed"]))
    fig = cc.plotter.plot_distributions(columns=["x"])
    cols = [F.hexof(ln.get_color()) for ln in F.lines(fig.axes[0])]
    ctx.eq(len(cols), c["n"], "number of curves")
    auto = [x for i, x in enumerate(cols) if i not in c["own"]]
    ctx.check(all(x == "#010203" for i, x in enumerate(cols) if i in c["own"]), "explicit colours")
    first = auto[:60]
    ctx.eq(len(set(first)), len(first), "number of distinct automatic colours")
    ctx.check(not F.fills(fig.axes[0]), "shading with five or more chains")
    ctx.hit()


SUMMARY_SETTINGS = st.fixed_dictionaries({}, optional={
    "statistics": st.sampled_from(gen.STATS), "summary_area": st.sampled_from([0.3, 0.5, 0.9, 0.9545]), "bins": st.sampled_from([8, 20, 60]),
    "smooth": st.sampled_from([0, 1, 2, 4]), "kde": st.sampled_from([False, True, 0.5]), "multimodal": st.booleans()})
# The statistic of a chain without an explicit one follows from multimodal, also where that is overridden
OVERRIDING = SUMMARY_SETTINGS | st.fixed_dictionaries({"multimodal": st.booleans()}, optional={"summary_area": st.sampled_from([0.5, 0.9])})
VIA = ["all", "names", "objects", "dict", "table", "table names", "table objects", "table turned", "dist", "errorbars"]


@facet(P, "summaries", lambda: st.fixed_dictionaries({
    "own": st.lists(SUMMARY_SETTINGS, min_size=1, max_size=3), "over": OVERRIDING, "via": st.lists(st.sampled_from(VIA), min_size=1, max_size=3, unique=True), "seed": gen.seeds,
    "late": st.booleans(), "replaced": st.booleans()}), quick=80)
def summary_settings(c, ctx):
    """A collection with an override against one whose chains are given the same settings explicitly."""
    import pandas as pd

    from chainconsumer import Chain, ChainConfig, ChainConsumer

    def stats(d):
        return {k: gen.stat(v) if k == "statistics" else v for k, v in d.items()}

    own, over = [dict(o) for o in c["own"]], dict(c["over"])
    for o in own:  # what a chain with these settings explicitly would refuse
        if o.get("multimodal") and o.get("statistics", "hdi") != "hdi":
            o.pop("multimodal")
    if any(both.get("multimodal") and both.get("statistics", "hdi") != "hdi" for both in ({**o, **over} for o in own)):
        over.pop("multimodal", None)
        for o in own:
            o.pop("multimodal", None)
    a, b, outside = ChainConsumer(), ChainConsumer(), []
    if not c["late"]:
        a.set_override(ChainConfig(**stats({"summary_area": 0.1} if c["replaced"] else over)))
    for i, o in enumerate(own):
        rng = np.random.RandomState((c["seed"] + i) % 2**31)
        df = pd.DataFrame({"x": rng.gamma(2 + i, 1, 600), "y": np.concatenate([rng.normal(0, 1, 350), rng.normal(9, 1.5, 250)])})
        a.add_chain(Chain(samples=df, name=f"c{i}", **stats(o)))
        b.add_chain(Chain(samples=df, name=f"c{i}", **stats({**o, **over})))
        outside.append(Chain(samples=df, name=f"c{i}", **stats(o)))
    if c["late"] or c["replaced"]:
        a.set_override(ChainConfig(**stats(over)))
    before = [a.get_chain(n).model_dump(exclude={"samples"}) for n in a.get_names()]

    def ask(cc, via):
        names = cc.get_names()
        objects = [cc.get_chain(n) for n in names]
        an = cc.analysis
        if via.startswith("table"):
            return an.get_latex_table(chains={"table names": names, "table objects": objects}.get(via), transpose=via == "table turned")
        if via == "dist":
            return digest_fig(cc.plotter.plot_distributions())
        if via == "errorbars":
            return digest_fig(cc.plotter.plot_summary(errorbar=True))
        return repr(an.get_summary(chains={"all": None, "names": names, "objects": objects, "dict": dict(zip(names, objects))}[via]))

    for via in c["via"]:
        diff = same(ask(a, via), ask(b, via))
        ctx.check(diff is None, lambda: f"{via} with the override {over} over {own}: not what the same settings given explicitly give: {diff}")
        ctx.label(via)
    plain = ChainConsumer()
    for ch in outside:
        plain.add_chain(ch)
    diff = same(repr(a.analysis.get_summary(chains=outside)), repr(plain.analysis.get_summary()))
    ctx.check(diff is None, lambda: f"summary of chains outside of the collection: {diff}")
    ctx.eq([a.get_chain(n).model_dump(exclude={"samples"}) for n in a.get_names()], before, "configuration of the chains")
    if any(k in over and o.get(k) != over[k] for o in own for k in over):
        ctx.hit()


# ------------------------------------------------------------------------------------------------ R03
P = prop(
    "R03",
    "histories of analysis, comparison, diagnostic, table and plot calls on one collection, mixed with replacing, adding and removing chains, "
    "truths, overrides and labels; after every call the result is compared with "
    "that of the same call on a freshly built collection to which only the changes were applied, and samples and settings with their values before. Non-trivial: two or more calls.",
)
CHANGES = ["replace", "append", "drop", "override", "labels", "truth", "marker"]
OPS = ["summary", "table", "cov", "cor", "max", "aic", "bic", "dic", "compare", "gelman", "geweke", "plot", "walks", "dist", "plot_summary", "errorbar", "text", "plot_dist",
       "divide", "plot_contour"]


@st.composite
def op_histories(draw):
    return {
        "seed": draw(gen.seeds), "n": draw(st.integers(1, 3)), "ops": draw(st.lists(st.sampled_from(OPS + CHANGES), min_size=2, max_size=6)),
        "stats": [draw(st.sampled_from(["max", "mean", "cumulative", "max_central", "hdi", "mm"])) for _ in range(3)],
        "smooth": draw(st.sampled_from([0, 1, 3])), "kde": draw(st.sampled_from([False, False, True, 0.7])), "power": draw(st.sampled_from([1.0, 2.0])),
        "height": draw(st.sampled_from([1.0, 0.5])), "grid": draw(st.sampled_from([False, False, False, True])),
        "truth": draw(st.booleans()), "blind": draw(st.sampled_from([False, ["x"]])), "cloud": draw(st.booleans()), "override": draw(st.booleans()),
        "log": draw(st.booleans()), "ext": draw(st.sampled_from([{}, {}, {"x": [0.5, 3.0]}, {"y": [0.0, 9.0]}]))}


def purity_chain(c, i, seed, name=None):
    import pandas as pd

    from chainconsumer import Chain

    rng = np.random.RandomState(seed % 2**31)
    if c["grid"]:
        gx, gy = np.meshgrid(np.linspace(1, 5, 12), np.linspace(2, 6, 11), indexing="ij")
        df = pd.DataFrame({"x": gx.ravel(), "y": gy.ravel()})
        df["weight"] = np.exp(-0.5 * (df["x"] - 3) ** 2 - 0.5 * (df["y"] - 4 - 0.1 * (seed % 7)) ** 2)
        df["log_posterior"] = np.log(df["weight"])
    else:
        df = pd.DataFrame({"x": np.exp(rng.normal(0, 0.3, 120)), "y": 5 + rng.normal(0, 1 + i, 120)})
        df["weight"] = rng.uniform(0.5, 2, 120)
        df["log_posterior"] = rng.normal(size=120)
    kw = {"multimodal": True} if c["stats"][i % 3] == "mm" else {"statistics": gen.stat(c["stats"][i % 3])}
    return df, Chain(samples=df, name=name or f"c{i}", walkers=2 if not c["grid"] else 1, num_free_params=2 + i, num_eff_data_points=30.0, bins=12, smooth=c["smooth"],
                     kde=c["kde"], power=c["power"], grid=c["grid"], histogram_relative_height=c["height"], plot_cloud=c["cloud"], plot_point=True, **kw)


def purity_setup(c, changes=()):
    from chainconsumer import ChainConfig, ChainConsumer, PlotConfig, Truth

    frames = []
    cc = ChainConsumer()
    for i in range(c["n"]):
        df, ch = purity_chain(c, i, c["seed"] + i)
        frames.append(df)
        cc.add_chain(ch)
    if c["truth"]:
        cc.add_truth(Truth(location={"x": 1.5, "y": 4.0}))
    if c["override"]:
        cc.set_override(ChainConfig(linewidth=2.0, color="red"))
    cc.set_plot_config(PlotConfig(blind=c["blind"], log_scales=["x"] if c["log"] else [], labels={"y": "$y_0$"}, extents=c["ext"]))
    for k, op in enumerate(changes):
        change(c, cc, op, k, frames)
    return cc, frames


def change(c, cc, op, k, frames):
    """The k-th change of a history: the same on every collection it is applied to."""
    from chainconsumer import ChainConfig, PlotConfig, Truth

    if op == "replace":
        df, ch = purity_chain(c, 0, c["seed"] + 1000 + k)
        cc.remove_chain("c0").add_chain(ch)
        frames.append(df)
    elif op == "append":
        df, ch = purity_chain(c, 1, c["seed"] + 2000 + k, name=f"new {k}")
        cc.add_chain(ch)
        frames.append(df)
    elif op == "drop":
        if len(cc.get_names()) > 1:
            cc.remove_chain([n for n in cc.get_names() if n != "c0"][0])
    elif op == "override":
        cc.set_override(ChainConfig(linewidth=3.0 + k))
    elif op == "labels":
        cc.set_plot_config(PlotConfig(labels={"x": f"$x_{k}$"}))
    elif op == "truth":
        cc.add_truth(Truth(location={"y": 5.0 + 0.1 * k}))
    else:
        cc.add_marker({"x": 1.2, "y": 5.0 + 0.1 * k}, name=f"marker {k}")


def digest_fig(fig) -> list:
    out = []
    for ax in fig.axes:
        row = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), tuple(np.round(ax.get_xlim(), 9)), tuple(np.round(ax.get_ylim(), 9))]
        for ln in ax.lines:
            row.append((np.asarray(ln.get_xdata(), dtype=float).tolist()[:50], np.asarray(ln.get_ydata(), dtype=float).tolist()[:200], F.hexof(ln.get_color())))
        for col in ax.collections:
            row.append((type(col).__name__, F.offsets(col).tolist()[:30] if len(col.get_offsets()) < 5000 else 0, [p.vertices.tolist()[:20] for p in col.get_paths()[:5]]))
        out.append(row)
    return out


def do_op(op: str, cc):
    import matplotlib.pyplot as plt

    a = cc.analysis
    if op == "summary":
        return repr(a.get_summary())
    if op == "table":
        return a.get_latex_table()
    if op == "cov":
        return a.get_covariance_table("c0")
    if op == "cor":
        return a.get_correlation_table("c0")
    if op == "max":
        return repr(a.get_max_posteriors())
    if op in ("aic", "bic", "dic"):
        return repr(getattr(cc.comparison, op)())
    if op == "compare":
        return cc.comparison.comparison_table()
    if op == "gelman":
        if cc.get_chain("c0").walkers < 2:
            return None
        every = all(cc.get_chain(n).walkers > 1 for n in cc.get_names())  # not so for a marker
        return repr(cc.diagnostic.gelman_rubin() if every else cc.diagnostic.gelman_rubin("c0"))
    if op == "geweke":
        return repr(cc.diagnostic.geweke("c0"))
    if op == "text":
        return [a.get_parameter_text(v) for v in a.get_summary()["c0"].values() if v is not None]
    if op == "divide":
        if cc.get_chain("c0").walkers < 2:
            return None
        return [p.samples.to_numpy().tolist() for p in cc.get_chain("c0").divide()]
    if op == "plot":
        return digest_fig(cc.plotter.plot(figsize=3))
    if op == "walks":
        return digest_fig(cc.plotter.plot_walks(convolve=5))
    if op == "dist":
        return digest_fig(cc.plotter.plot_distributions())
    if op == "plot_summary":
        return digest_fig(cc.plotter.plot_summary())
    if op == "errorbar":
        return digest_fig(cc.plotter.plot_summary(errorbar=True))
    from chainconsumer import plotting

    fig, ax = plt.subplots()
    if op == "plot_dist":
        plotting.plot_dist(ax, cc.get_chain("c0"), "x")
    else:
        plotting.plot_contour(ax, cc.get_chain("c0"), "x", "y")
    return digest_fig(fig)


def same(a, b, path="result"):
    """None if equal up to 1e-12, else where they differ."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} and {len(b)}"
        if a and all(isinstance(x, float) for x in a) and all(isinstance(x, float) for x in b):
            return None if np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True) else path
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) else path
    return None if a == b else f"{path}: {str(a)[:200]} and {str(b)[:200]}"


@facet(P, "history", op_histories, quick=130)
def purity(c, ctx):
    cc, frames = purity_setup(c)
    done = []
    for op in c["ops"]:
        if op in CHANGES:
            change(c, cc, op, len(done), frames)
            done.append(op)
            ctx.label(op)
            continue
        chains = [cc.get_chain(n) for n in cc.get_names()]
        data = [ch.samples.copy(deep=True) for ch in chains]
        conf = [ch.model_dump(exclude={"samples"}) for ch in chains]
        pconf = cc.plotter.config.model_dump()
        got = do_op(op, cc)
        fresh, originals = purity_setup(c, done)
        for df, o in zip(frames, originals):
            same_frame(ctx, df, o, f"the user's frame after {op}")
        for ch, d in zip(chains, data):
            same_frame(ctx, ch.samples, d, f"samples of {ch.name} after {op}")
        ctx.eq([ch.model_dump(exclude={"samples"}) for ch in chains], conf, f"settings of the chains after {op}")
        ctx.eq(cc.plotter.config.model_dump(), pconf, f"plot configuration after {op}")
        ctx.check([cc.get_chain(n) is ch for n, ch in zip(cc.get_names(), chains)] == [True] * len(chains), f"chains were replaced by {op}")
        ref = do_op(op, fresh)
        diff = same(got, ref)
        ctx.check(diff is None, f"{op} depends on the calls before it: {diff}")
        ctx.label(op)
    if len([o for o in c["ops"] if o not in CHANGES]) >= 2:
        ctx.hit()


@facet(P, "repeat", lambda: st.fixed_dictionaries({"c": op_histories(), "op": st.sampled_from(OPS)}), quick=80)
def repeat(c, ctx):
    cc, _ = purity_setup(c["c"])
    a, b = do_op(c["op"], cc), do_op(c["op"], cc)
    diff = same(a, b)
    ctx.check(diff is None, f"{c['op']} gives two results: {diff}")
    ctx.label(c["op"])
    ctx.hit()


@facet(P, "again after changes", lambda: st.fixed_dictionaries({
    "c": op_histories(), "op": st.sampled_from(OPS), "changes": st.lists(st.sampled_from([*CHANGES, "replace", "replace"]), min_size=1, max_size=3), "plotted": st.booleans()}), quick=160)
def again(c, ctx):
    """The same call before and after changes of the collection: the second answer is that of a fresh collection."""
    s = c["c"]
    cc, frames = purity_setup(s)
    do_op(c["op"], cc)
    if c["plotted"]:
        do_op("dist", cc)
    for k, op in enumerate(c["changes"]):
        change(s, cc, op, k, frames)
    fresh, _ = purity_setup(s, c["changes"])
    diff = same(do_op(c["op"], cc), do_op(c["op"], fresh))
    ctx.check(diff is None, f"{c['op']} after {c['changes']} remembers what was there before: {diff}")
    ctx.label(c["op"], *c["changes"])
    ctx.hit()


ARG_OPS = {
    "summary": lambda cc, ch, co: repr(cc.analysis.get_summary(chains=ch, columns=co)),
    "table": lambda cc, ch, co: cc.analysis.get_latex_table(chains=ch, columns=co),
    "table of parameters": lambda cc, ch, co: cc.analysis.get_latex_table(chains=ch, columns=co, transpose=True),
    "cov": lambda cc, ch, co: cc.analysis.get_covariance_table(ch[0], columns=co),
    "cor": lambda cc, ch, co: cc.analysis.get_correlation_table(ch[0], columns=co),
    "matrix": lambda cc, ch, co: cc.get_chain("c0").get_covariance(columns=co).matrix.tolist(),
    "gelman": lambda cc, ch, co: None if cc.get_chain("c0").walkers < 2 else repr(cc.diagnostic.gelman_rubin(ch)),
    "geweke": lambda cc, ch, co: None if cc.get_chain("c0").walkers < 2 else repr(cc.diagnostic.geweke(ch)),
    "plot": lambda cc, ch, co: digest_fig(cc.plotter.plot(chains=ch, columns=co, figsize=3)),
    "walks": lambda cc, ch, co: digest_fig(cc.plotter.plot_walks(chains=ch, columns=co)),
    "dist": lambda cc, ch, co: digest_fig(cc.plotter.plot_distributions(chains=ch, columns=co)),
    "plot_summary": lambda cc, ch, co: digest_fig(cc.plotter.plot_summary(chains=ch, columns=co)),
}


@facet(P, "arguments", lambda: st.fixed_dictionaries({
    "c": op_histories(), "ops": st.lists(st.sampled_from(sorted(ARG_OPS)), min_size=1, max_size=3), "columns": st.sampled_from([["x", "y"], ["y", "x"], ["y"], ["x"], ["x", "nowhere"]]),
    "names": st.booleans(), "config": st.booleans()}), quick=110)
def arguments(c, ctx):
    """Lists handed to one call after the other stay as they were, so each call sees what the user wrote."""
    s = c["c"]
    cc, _ = purity_setup(s)
    fresh, _ = purity_setup(s)
    cols = list(c["columns"])
    for op in c["ops"]:
        if "nowhere" in cols and op not in ("summary", "table", "table of parameters"):
            continue
        obj = not c["names"]
        mine = [cc.get_chain(n) if obj else n for n in cc.get_names()]
        kept = list(mine)
        got = ARG_OPS[op](cc, mine, cols)
        ctx.eq(cols, c["columns"], f"the list of columns passed to {op}")
        ctx.check(len(mine) == len(kept) and all(a is b for a, b in zip(mine, kept)), f"the list of chains passed to {op} was changed")
        ref = ARG_OPS[op](fresh, [fresh.get_chain(n) if obj else n for n in fresh.get_names()], list(c["columns"]))
        diff = same(got, ref)
        ctx.check(diff is None, f"{op} with arguments used before: {diff}")
        ctx.label(op)
    if len(cols) >= 1:
        ctx.hit()
