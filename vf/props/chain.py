"""C: what a chain is - admission, parameter columns, shifting, division, maxima, matrices, translators."""

from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen
from ..core import Ctx, Excluded, facet, prop


def make(d: dict, df: pd.DataFrame | None = None, name: str = "chain", **kw):
    from chainconsumer import Chain

    df = gen.build(d) if df is None else df
    return Chain(samples=df, name=name, **gen.chain_kwargs(d), **kw)


def same_frame(ctx: Ctx, got: pd.DataFrame, want: pd.DataFrame, what: str) -> None:
    with ctx.reading(what):
        ctx.eq(list(got.columns), list(want.columns), f"{what}: columns")
        ctx.eq(len(got), len(want), f"{what}: number of rows")
        ctx.check(got.index.equals(want.index), f"{what}: row labels changed")
        for c in want.columns:
            ctx.check(np.array_equal(got[c].to_numpy(), want[c].to_numpy()), f"{what}: values of column {c!r} changed")


# ------------------------------------------------------------------------------------------------ C01
P = prop(
    "C01",
    "random frames (column names, order, index kinds, dtypes, weights, posteriors, walkers, configuration); the accepted half "
    "is compared value by value with the frame that was passed and both sides are mutated afterwards; the rejected half plants "
    "one defect at a random place. Non-trivial: at least two rows and two columns besides the defect.",
)


@facet(P, "accepts", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=1, max_n=40),
    "dtype": st.sampled_from(["float", "float", "int", "f32", "mixed"]),
    "walkers": st.sampled_from([1, 1, 2, 3, 4]),
    "mut": st.sampled_from(["user", "chain", "both"]),
    "kw": st.fixed_dictionaries({}, optional={
        "summary_area": st.sampled_from([0.05, 0.5, 0.95, 1.0]), "num_free_params": st.integers(0, 4), "kde": st.sampled_from([True, 0.5, 2]),
        "num_eff_data_points": st.sampled_from([0.0, 10.5, 1e6]), "bins": st.integers(5, 50), "smooth": st.integers(0, 3),
        "power": st.sampled_from([0.5, 2.0]), "plot_cloud": st.booleans(), "color": st.sampled_from(["red", "#112233", "k"])}),
    "stat": st.sampled_from([None, "max", "mean", "hdi"]),
    "multimodal": st.booleans(),
}), quick=600)
def accepts(c, ctx):
    d = c["d"]
    if d["n"] % c["walkers"]:
        d["n"] = d["n"] * c["walkers"]
    df = gen.build(d)
    par = gen.params(d, df)
    for i, col in enumerate(par):
        if c["dtype"] == "int" or (c["dtype"] == "mixed" and i % 2):
            df[col] = np.round(df[col] * 10).astype(np.int64)
        elif c["dtype"] == "f32":
            df[col] = df[col].astype(np.float32)
    kw = dict(c["kw"])
    if c["stat"]:
        kw["statistics"] = gen.stat(c["stat"])
    if c["multimodal"] and c["stat"] in (None, "hdi"):
        kw["multimodal"] = True
    before = df.copy(deep=True)
    chain = make(d, df, walkers=c["walkers"], **kw)
    same_frame(ctx, df, before, "the frame passed by the user")
    want = before.copy(deep=True)
    if d["w"] is None:
        want["weight"] = 1.0
    with ctx.reading("chain samples"):
        got = chain.samples
        ctx.eq(set(got.columns), set(want.columns), "columns of the chain")
        same_frame(ctx, got[list(want.columns)], want, "samples of the chain")
        ctx.check(np.array_equal(chain.weights, want[d["wname"]].to_numpy()), "weights differ from the weight column")
        for p in par:
            ctx.check(np.array_equal(np.asarray(chain.get_data(p)), want[p].to_numpy()), f"data of column {p!r} differ")
        if d["lp"] is None:
            ctx.check(chain.log_posterior is None, "a posterior appeared from nowhere")
        else:
            ctx.check(np.array_equal(chain.log_posterior, want[d["lpname"]].to_numpy()), "log posterior differs from its column")
    for k, v in kw.items():
        if k != "color":
            ctx.eq(getattr(chain, k), v, f"setting {k}")
    ctx.eq(chain.name, "chain", "name")
    ctx.eq(chain.walkers, c["walkers"], "walkers")
    if c["mut"] in ("user", "both"):
        col = par[0]
        df[col] = df[col] * 0 + 77
        df.iloc[0, :] = -1
        df["extra column"] = 1.0
        same_frame(ctx, chain.samples[list(want.columns)], want, "samples after the user's frame was modified")
        ctx.check("extra column" not in chain.samples.columns, "the chain shares the user's frame")
    if c["mut"] in ("chain", "both"):
        snapshot = df.copy(deep=True)
        chain.samples.iloc[0, 0] = 12
        chain.samples["other column"] = 5.0
        same_frame(ctx, df, snapshot, "the user's frame after the chain was modified")
    if d["n"] >= 2 and len(before.columns) >= 2:
        ctx.hit()
    ctx.label("index " + d["index"], "weights " + str(d["w"]), "mutate " + c["mut"])


@facet(P, "large", lambda: st.fixed_dictionaries({
    "n": st.integers(5000, 250000), "w": st.booleans(), "own": st.booleans(), "dtype": st.sampled_from(["float64", "float32", "int64"]),
    "order": st.sampled_from(["C", "F"]), "seed": gen.seeds}), quick=8)
def large(c, ctx):
    """The chain and the frame it was built from are independent at any size and layout."""
    from chainconsumer import Chain

    rng = np.random.RandomState(c["seed"])
    names = ["x", "y"] + (["weight"] if c["w"] else [])
    arr = np.array(rng.uniform(1, 90, size=(c["n"], len(names))), dtype=c["dtype"], order=c["order"])
    df = pd.DataFrame(arr, columns=names)
    want = df.copy(deep=True)
    chain = Chain(samples=df, name="large")
    ctx.eq(list(df.columns), names, "columns of the user's frame")
    if c["own"]:
        chain.samples.iloc[:, 0] = 5
        ctx.check(np.array_equal(df.to_numpy(), want.to_numpy()), "the user's frame changed with the chain")
    else:
        df.iloc[:, 1] = 5
        arr[:, 0] = 7
        ctx.check(np.array_equal(chain.samples[names].to_numpy(), want.to_numpy()), "the chain changed with the user's frame")
    ctx.check(np.array_equal(chain.weights, want["weight"].to_numpy() if c["w"] else np.ones(c["n"])), "weights")
    ctx.hit()


DEFECTS = ["nan", "inf", "-inf", "zero weight", "negative weight", "nan weight", "inf weight", "nan posterior", "int column", "tuple column", "empty",
           "missing weights", "walkers", "walkers0", "color_param", "area high", "area low", "multimodal stat", "neff neg", "neff nan",
           "neff inf", "nfree neg", "color", "no columns", "none in column"]


@facet(P, "rejects", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=2, max_n=40, min_cols=1),
    "defect": st.sampled_from(DEFECTS), "row": st.integers(0, 1000), "col": st.integers(0, 1000), "shift": st.booleans(),
    "with": st.fixed_dictionaries({}, optional={
        "grid": st.just(True), "kde": st.sampled_from([True, 0.5]), "plot_cloud": st.just(True), "plot_point": st.just(True), "plot_contour": st.just(False),
        "multimodal": st.just(True), "bins": st.integers(5, 30), "smooth": st.integers(0, 2), "power": st.sampled_from([0.5, 2.0]), "show_contour_labels": st.just(True)}),
}), quick=900)
def rejects(c, ctx):
    from chainconsumer import Chain

    d, defect = c["d"], c["defect"]
    if "weight" in defect and defect != "missing weights" and d["w"] is None:
        d["w"] = "real"
    if "posterior" in defect and d["lp"] is None:
        d["lp"] = "real"
    d = gen.normalise(d)
    df = gen.build(d)
    par = gen.params(d, df)
    kw = dict(gen.chain_kwargs(d))
    if c["shift"]:
        kw["shift_params"] = True
    kw.update(c["with"])
    make(d, df, **c["with"])  # without the defect it is accepted
    n = len(df)
    row, col = c["row"] % n, par[c["col"] % len(par)]
    pos = {x: i for i, x in enumerate(df.columns)}
    bad = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}
    if defect in bad:
        df.iloc[row, pos[col]] = bad[defect]
    elif defect == "none in column":
        df[col] = df[col].astype(object)
        df.iloc[row, pos[col]] = None
    elif defect.endswith(" weight"):
        v = {"zero": 0.0, "negative": -abs(df[d["wname"]].iloc[row]), "nan": np.nan, "inf": np.inf}[defect.split()[0]]
        df.iloc[row, pos[d["wname"]]] = v
    elif defect == "nan posterior":
        df.iloc[row, pos[d["lpname"]]] = np.nan
    elif defect == "int column":
        df = df.rename(columns={col: 3})
    elif defect == "tuple column":
        df[7] = 1.0
    elif defect == "empty":
        df = df.iloc[:0]
    elif defect == "no columns":
        df = pd.DataFrame()
    elif defect == "missing weights":
        kw["weight_column"] = ["not there", "weights", "Weight", "w", " weight", "posterior"][c["row"] % 6]
        if kw["weight_column"] in df.columns:
            raise Excluded("there is such a column")
    elif defect == "walkers":
        df = pd.concat([df] * (1 + c["col"] % 12))
        n = len(df)
        kw["walkers"] = next(k for k in range(2 + c["row"] % n, 10 * n) if n % k)
    elif defect == "walkers0":
        kw["walkers"] = -(c["row"] % 3)
    elif defect == "color_param":
        kw["color_param"] = "not there"
    elif defect == "area high":
        kw["summary_area"] = 1.0 + 1e-6 * (1 + c["row"])
    elif defect == "area low":
        kw["summary_area"] = -1e-6 * (1 + c["row"])
    elif defect == "multimodal stat":
        kw["multimodal"] = True
        kw["statistics"] = gen.stat(["max", "mean", "cumulative", "max_central"][c["row"] % 4])
    elif defect == "neff neg":
        kw["num_eff_data_points"] = -0.5
    elif defect == "neff nan":
        kw["num_eff_data_points"] = float("nan")
    elif defect == "neff inf":
        kw["num_eff_data_points"] = float("inf")
    elif defect == "nfree neg":
        kw["num_free_params"] = -1
    elif defect == "color":
        kw["color"] = "no such colour"
    ctx.rejects(lambda: Chain(samples=df, name="bad", **kw), f"chain with defect '{defect}'")
    ctx.label(defect)
    if n >= 2:
        ctx.hit()


# ------------------------------------------------------------------------------------------------ C02
P = prop(
    "C02",
    "frames with weight and posterior columns under default, custom and aliased names in any case, placed anywhere in the frame; "
    "every product that lists parameters is compared with the parameters computed from the documented rule. Non-trivial: at "
    "least one non-parameter column besides an appended default weight.",
)


# names that resemble those of weights and posteriors, but are parameters
NEAR = [" weight", "weight ", "log weight", "log_weight", "weightings", "posterior.", "log posterior", "logposterior", "poster", "log_likelihood", "weight1"]


@st.composite
def alias_frames(draw):
    d = draw(gen.frames(min_n=20, max_n=40, min_cols=1, max_cols=3, pool=gen.NAME_POOL + NEAR))
    extra = draw(st.lists(st.tuples(st.sampled_from(gen.ALIASES), st.sampled_from(["lower", "upper", "title", "mixed"])), max_size=3))
    out = []
    for a, k in extra:
        nm = {"lower": a, "upper": a.upper(), "title": a.title(), "mixed": "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(a))}[k]
        if nm not in out and nm not in (d["wname"], d["lpname"], "weight"):
            out.append(nm)
    return {"d": d, "extra": out, "nparam": draw(st.integers(0, 2)), "first": draw(st.booleans()), "default_posterior_name": draw(st.booleans())}


@facet(P, "columns", alias_frames, quick=160)
def columns(c, ctx):
    from chainconsumer import Chain, ChainConsumer

    d = c["d"]
    df = gen.build(d)
    for i, e in enumerate(c["extra"]):
        df.insert(0 if c["first"] else len(df.columns), e, np.linspace(1, 2, len(df)) + i)
    par = gen.params(d, df)
    kw = gen.chain_kwargs(d)
    if d["lp"] is not None and d["lpname"] != "log_posterior" and c["default_posterior_name"]:
        # without being told, a column called lnp is an ordinary parameter
        kw.pop("posterior_column")
        par = [x for x in df.columns if x != d["wname"] and x.lower() not in gen.ALIASES]
    chain = Chain(samples=df, name="chain", bins=12, smooth=1, statistics=gen.stat("cumulative"), **kw)
    ctx.eq(list(chain.data_columns), par, "parameters of the chain")
    with ctx.reading("data samples"):
        ctx.eq(list(chain.data_samples.columns), par, "columns of the parameter samples")
    ctx.eq(list(chain.plotting_columns), par, "parameters to plot")
    if len(par) > 0:
        ctx.eq(list(chain.get_covariance().columns), par, "parameters of the covariance")
        ctx.eq(list(chain.get_correlation().columns), par, "parameters of the correlation")
    cc = ChainConsumer().add_chain(chain)
    ctx.eq(list(cc.analysis.get_summary()["chain"]), par, "parameters of the summary")
    table = cc.analysis.get_latex_table()
    head = next(line for line in table.splitlines() if "Model" in line)
    ctx.eq([x.strip() for x in head.strip().rstrip("\\").strip().split(" & ")], ["Model", *[x.strip() for x in par]], "parameters of the table")
    mp = chain.get_max_posterior_point()
    if "log_posterior" in df.columns or "posterior_column" in kw:
        has = (kw.get("posterior_column", "log_posterior")) in df.columns
        ctx.eq(mp is not None, has, "existence of a maximum posterior point")
        if mp is not None:
            ctx.eq(sorted(mp.coordinate), sorted(par), "coordinates of the maximum posterior point")
    if c["nparam"] and len(par) >= 1:
        cp = par[c["nparam"] % len(par)]
        ch2 = Chain(samples=df, name="c2", plot_cloud=True, color_param=cp, **kw)
        ctx.eq(list(ch2.plotting_columns), [x for x in par if x != cp], "parameters to plot with a colour parameter")
        ctx.eq(list(ch2.data_columns), par, "parameters of the chain with a colour parameter")
        ch3 = Chain(samples=df, name="c3", plot_cloud=False, color_param=cp, **kw)
        ctx.eq(list(ch3.plotting_columns), par, "parameters to plot with a colour parameter but no cloud")
    if c["extra"] or d["w"] is not None or d["lp"] is not None:
        ctx.hit()
    ctx.label(f"aliases {len(c['extra'])}", "weights " + str(d["w"]), "wname " + d["wname"])


@facet(P, "figures", alias_frames, quick=48)
def figures(c, ctx):
    from chainconsumer import Chain, ChainConsumer

    d = c["d"]
    df = gen.build(d)
    for i, e in enumerate(c["extra"]):
        df.insert(0 if c["first"] else len(df.columns), e, np.linspace(1, 2, len(df)) + i)
    par = gen.params(d, df)
    chain = Chain(samples=df, name="chain", bins=10, smooth=1, statistics=gen.stat("cumulative"), **gen.chain_kwargs(d))
    cc = ChainConsumer().add_chain(chain)
    fig = cc.plotter.plot_distributions()
    ctx.eq([ax.get_xlabel() for ax in fig.axes if ax.axison], par, "parameters of plot_distributions")
    fig = cc.plotter.plot_summary()
    ctx.eq([ax.get_title() for ax in fig.axes if ax.axison], par, "parameters of plot_summary")
    fig = cc.plotter.plot_walks(plot_weights=False, plot_posterior=False)
    ctx.eq([ax.get_ylabel() for ax in fig.axes], par, "parameters of plot_walks")
    if c["extra"] or d["w"] is not None or d["lp"] is not None:
        ctx.hit()


@facet(P, "mixed roles", lambda: st.fixed_dictionaries({
    "role": st.sampled_from(["weight_column", "posterior_column"]), "name": st.sampled_from(["w", "lnp", "x2", "a b"]), "far": st.sampled_from([-40.0, 7.0, 300.0]),
    "first": st.booleans(), "third": st.booleans(), "explicit": st.booleans(), "what": st.sampled_from(["summary", "table", "plot", "plot", "distributions", "bars", "errorbars", "walks"]),
    "seed": gen.seeds}), quick=24)
def mixed_roles(c, ctx):
    """The weight or posterior of one chain can be called as a parameter of another."""
    from chainconsumer import Chain, ChainConsumer

    from .. import fig as F

    rng = np.random.RandomState(c["seed"])
    q = c["name"]
    kw = {"bins": 12, "smooth": 1, "statistics": gen.stat("cumulative")}
    plain = Chain(samples=pd.DataFrame({"x": rng.normal(0, 1, 60), q: rng.normal(c["far"], 0.5, 60)}), name="plain", **kw)
    other = Chain(samples=pd.DataFrame({"x": rng.normal(0, 1, 60), q: rng.uniform(0.5, 2, 60)}), name="other", **{c["role"]: q}, **kw)
    third = Chain(samples=pd.DataFrame({"x": rng.normal(0, 1, 60)}), name="third", **kw)
    chains = ([other, plain] if c["first"] else [plain, other]) + ([third] if c["third"] else [])
    cc, alone = ChainConsumer(), ChainConsumer().add_chain(plain)
    for ch in chains:
        cc.add_chain(ch)
    want = {ch.name: ["x", q] if ch is plain else ["x"] for ch in chains}
    cols = {"columns": ["x", q]} if c["explicit"] else {}
    ctx.label(c["what"], c["role"])
    ctx.hit()
    if c["what"] == "summary":
        got = cc.analysis.get_summary(**cols)
        ctx.eq({k: list(v) for k, v in got.items()}, want, "parameters of the summary")
        return
    if c["what"] == "table":
        rows = [ln.split(" & ") for ln in cc.analysis.get_latex_table(**cols).splitlines() if " & " in ln]
        for row in rows[1:]:
            with ctx.reading("table"):
                ctx.eq("--" in row[2], row[0].strip() != "plain", f"entry {row[2]!r} of {row[0].strip()} for {q!r}")
        return
    if c["what"] == "plot":
        fig, ref = cc.plotter.plot(figsize=4, **cols), alone.plotter.plot(figsize=4, **cols)
        ctx.eq(len(F.lines(fig.axes[3])), 1, f"curves in the panel of {q!r}")
        ctx.eq(len(F.lines(fig.axes[0])), len(chains), "curves in the panel of x")
        ctx.eq(len([s for s in F.contour_sets(fig.axes[2]) if not s.filled]), 1, "contours")
        ctx.eq([ax.get_xlim() for ax in fig.axes[3:4]], [ax.get_xlim() for ax in ref.axes[3:4]], f"limits of {q!r}")
        ctx.eq(fig.axes[2].get_ylim(), ref.axes[2].get_ylim(), f"limits of {q!r}")
    elif c["what"] == "distributions":
        fig, ref = cc.plotter.plot_distributions(**cols), alone.plotter.plot_distributions(**cols)
        ctx.eq([len(F.lines(ax)) for ax in F.shown_axes(fig)], [len(chains), 1], "curves")
        ctx.eq(F.shown_axes(fig)[1].get_xlim(), F.shown_axes(ref)[1].get_xlim(), f"limits of {q!r}")
    elif c["what"] in ("bars", "errorbars"):
        kw = {"errorbar": c["what"] == "errorbars", **cols}
        fig, ref = cc.plotter.plot_summary(**kw), alone.plotter.plot_summary(**kw)
        ctx.eq({tuple(ax.get_xlim()) for ax in fig.axes[2::3]}, {tuple(ref.axes[2].get_xlim())}, f"limits of {q!r}")
        for ch, ax in zip(chains, fig.axes[2::3]):
            ctx.eq(len(ax.lines) + len(ax.collections) > 0, ch is plain, f"something is drawn for {q!r} of {ch.name}")
    else:
        fig, ref = (x.plotter.plot_walks(plot_weights=False, plot_posterior=False, **cols) for x in (cc, alone))
        ctx.eq([len(F.scatters(ax)) for ax in fig.axes], [len(chains), 1], "walks")
        ctx.eq(fig.axes[1].get_ylim(), ref.axes[1].get_ylim(), f"limits of {q!r}")


# ------------------------------------------------------------------------------------------------ C03
P = prop(
    "C03",
    "chains built with and without the mean shift over weights, posteriors, custom column names, integer columns and large offsets; "
    "oracle: weighted mean subtracted column by column. Non-trivial: non-uniform weights or a posterior column.",
)


@facet(P, "shift", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=2, max_n=60, extreme=True), "int": st.booleans(), "walkers": st.sampled_from([1, 2]), "cloud": st.booleans(),
}), quick=700)
def shift(c, ctx):
    d = c["d"]
    d["n"] *= c["walkers"]
    df = gen.build(d)
    par = gen.params(d, df)
    if c["int"]:
        df[par[0]] = np.round(df[par[0]]).astype(np.int64)
    before = df.copy(deep=True)
    w = gen.weights_of(d, df)
    kw = {"color_param": par[-1], "plot_cloud": True} if c["cloud"] else {}
    plain = make(d, df, walkers=c["walkers"], shift_params=False, **kw)
    chain = make(d, df, walkers=c["walkers"], shift_params=True, **kw)
    same_frame(ctx, df, before, "the frame passed by the user")
    for p in par:
        x = before[p].to_numpy().astype(float)
        mag = np.max(np.abs(x)) + 1e-300
        ctx.check(np.array_equal(np.asarray(plain.get_data(p)), before[p].to_numpy()), f"column {p!r} changed without a shift")
        got = np.asarray(chain.get_data(p), dtype=float)
        mean = float((w * x).sum() / w.sum())
        ctx.close(got, x - mean, f"shifted column {p!r}", rtol=0, atol=1e-10 * mag)
        ctx.check(abs((w * got).sum() / w.sum()) <= 1e-10 * mag, f"weighted mean of shifted column {p!r} is not zero")
    ctx.check(np.array_equal(chain.weights, w), "weights changed by the shift")
    ctx.check(np.array_equal(plain.weights, w), "weights changed")
    if d["lp"] is not None:
        ctx.check(np.array_equal(chain.log_posterior, before[d["lpname"]].to_numpy()), "log posterior changed by the shift")
        ctx.close(chain.get_max_posterior_point().log_posterior, before[d["lpname"]].max(), "maximum log posterior", rtol=0)
    ctx.check(len(chain.samples) == len(before) and chain.samples.index.equals(before.index), "rows changed by the shift")
    if d["w"] in ("int", "real", "wide") or d["lp"]:
        ctx.hit()
    ctx.label("weights " + str(d["w"]), "posterior " + str(d["lp"]))


@facet(P, "summaries move", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=300, max_n=800, max_cols=2, weights=[None, "int", "real"], indexes=["range"]),
    "stat": st.sampled_from(["cumulative", "mean", "max_central", "hdi"])}), quick=60)
def shift_summary(c, ctx):
    from chainconsumer import ChainConsumer

    d = c["d"]
    df = gen.build(d)
    par = gen.params(d, df)
    w = gen.weights_of(d, df)
    s = gen.stat(c["stat"])
    cc = ChainConsumer().add_chain(make(d, df, "plain", statistics=s)).add_chain(make(d, df, "shifted", statistics=s, shift_params=True))
    out = cc.analysis.get_summary()
    for p in par:
        x = df[p].to_numpy()
        m = float((w * x).sum() / w.sum())
        width = x.max() - x.min()
        a, b = out["plain"][p].array, out["shifted"][p].array
        # moving data by a rounding error may move a sample across a bin edge
        ctx.close(b, a - m, f"summary of shifted {p!r}", rtol=0, atol=0.03 * width)
    ctx.hit()


# ------------------------------------------------------------------------------------------------ C04
P = prop(
    "C04",
    "chains with 2-200 walkers, weights, custom columns, any index and configuration; the parts are compared block by block with the "
    "parent, and drawn and summarised like chains built from the blocks. Non-trivial: at least two rows per walker.",
)


@facet(P, "divide", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=1, max_n=12), "walkers": st.one_of(st.integers(2, 7), st.integers(2, 7), st.integers(2, 7), st.integers(8, 200)),
    "kw": st.fixed_dictionaries({}, optional={
        "kde": st.sampled_from([True, 0.5]), "bins": st.integers(5, 30), "smooth": st.integers(0, 2), "power": st.sampled_from([0.5, 2.0]),
        "summary_area": st.sampled_from([0.5, 0.95]), "num_free_params": st.integers(0, 4), "plot_point": st.just(True), "linewidth": st.sampled_from([0.5, 2.0]),
        "num_eff_data_points": st.sampled_from([10.0, 55.5]), "sigmas": st.sampled_from([[0, 1], [1, 2, 3]]), "linestyle": st.sampled_from([":", "--"])}),
    "stat": st.sampled_from([None, "mean", "hdi"]), "color": st.sampled_from([None, "red"]), "cp": st.booleans(), "shift": st.booleans(),
    "name": st.sampled_from(["chain", "a b", "$x$", ""]),
}), quick=400)
def divide(c, ctx):
    from chainconsumer import ChainConsumer

    d, k = c["d"], c["walkers"]
    per = d["n"]
    d["n"] = per * k
    df = gen.build(d)
    kw = dict(c["kw"])
    if c["stat"]:
        kw["statistics"] = gen.stat(c["stat"])
    if c["color"]:
        kw["color"] = c["color"]
    if c["cp"]:
        kw["color_param"] = gen.params(d, df)[0]
        kw["plot_cloud"] = True
    if c["shift"]:
        kw["shift_params"] = True
    chain = make(d, df, c["name"], walkers=k, **kw)
    snapshot = chain.samples.copy(deep=True)
    parts = chain.divide()
    same_frame(ctx, chain.samples, snapshot, "the divided chain")
    ctx.eq(len(parts), k, "number of parts")
    ctx.eq(len({p.name for p in parts}), k, "number of distinct names")
    for i, p in enumerate(parts):
        want = snapshot.iloc[i * per:(i + 1) * per]
        with ctx.reading("part"):
            ctx.eq(set(p.samples.columns), set(want.columns), f"columns of part {i}")
            got = p.samples[list(want.columns)]
            ctx.eq(len(got), per, f"rows of part {i}")
            for col in want.columns:
                ctx.check(np.array_equal(got[col].to_numpy(), want[col].to_numpy()), f"part {i} does not hold walker {i} in column {col!r}")
            ctx.check(str(i) in p.name and p.name.startswith(c["name"]), f"name of part {i}: {p.name!r}")
        ctx.eq(p.walkers, 1, f"walkers of part {i}")
        ctx.eq(list(p.data_columns), list(chain.data_columns), f"parameters of part {i}")
        ctx.check(np.array_equal(p.weights, want[d["wname"]].to_numpy()), f"weights of part {i}")
        for key in (*c["kw"], "weight_column", "posterior_column", "color_param", "plot_cloud", "statistics"):
            ctx.eq(getattr(p, key), getattr(chain, key), f"setting {key} of part {i}")
        if d["lp"] is not None:
            ctx.close(p.get_max_posterior_point().log_posterior, want[d["lpname"]].max(), f"maximum posterior of part {i}", rtol=0)
    cc = ChainConsumer()
    for p in parts:
        cc.add_chain(p)
    ctx.eq(len(cc.get_names()), k, "chains after adding all parts")
    if per >= 2:
        ctx.hit()
    ctx.label(f"walkers {k}", "index " + d["index"])


SHADING = st.fixed_dictionaries({}, optional={
    "shade": st.booleans(), "bar_shade": st.booleans(), "shade_alpha": st.sampled_from([0.5, 0.3]), "linewidth": st.sampled_from([1.0, 2.0]),
    "sigmas": st.sampled_from([[0, 1, 2], [0, 1]]), "multimodal": st.booleans(), "plot_cloud": st.booleans(), "color": st.sampled_from(["#112233", "#ff0080"])})


@facet(P, "drawn", lambda: st.fixed_dictionaries({
    "walkers": st.integers(2, 7), "kw": SHADING, "over": st.one_of(st.none(), st.none(), SHADING), "seed": gen.seeds, "others": st.integers(0, 2)}), quick=8)
def divide_drawn(c, ctx):
    """The parts are drawn as chains that were built from the blocks with the settings that the parent was given."""
    from chainconsumer import Chain, ChainConfig, ChainConsumer

    k, per = c["walkers"], 40
    rng = np.random.RandomState(c["seed"])
    df = pd.DataFrame({"x": rng.normal(0, 1, k * per), "y": rng.normal(3, 2, k * per)})
    kw = {"bins": 10, "smooth": 1, **c["kw"]}
    parts = Chain(samples=df, name="chain", walkers=k, **kw).divide()
    kw.pop("color", None)
    blocks = [Chain(samples=df.iloc[i * per:(i + 1) * per], name=p.name, **kw) for i, p in enumerate(parts)]
    seen = []
    for chains in (parts, blocks):
        cc = ChainConsumer()
        for i in range(c["others"]):
            cc.add_chain(Chain(samples=df, name=f"other {i}", bins=10, smooth=1))
        for ch in chains:
            cc.add_chain(ch)
        if c["over"]:
            cc.set_override(ChainConfig(**c["over"]))
        fig = cc.plotter.plot(figsize=3)
        seen.append([_artists(ax) for ax in fig.axes])
        seen.append(cc.analysis.get_summary(chains=[ch.name for ch in chains]))
    for i, (a, b) in enumerate(zip(seen[0], seen[2])):
        ctx.eq(a, b, f"panel {i} with the parts and with chains built from the blocks")
    ctx.eq(len(seen[0]), len(seen[2]), "panels")
    for name, s in seen[3].items():
        for p in s:
            ctx.eq(repr(seen[1][name][p]), repr(s[p]), f"summary of {p} of {name}")
    ctx.hit()


def _artists(ax) -> list:
    from .. import fig as F

    out = [("line", F.hexof(ln.get_color()), ln.get_linestyle(), ln.get_linewidth(), ln.get_zorder()) for ln in ax.lines]
    for coll in F.contour_sets(ax):
        out.append(("contours", bool(coll.filled), [round(float(x), 12) for x in coll.levels], coll.get_alpha(), [F.hexof(x) for x in coll.get_facecolor()]))
    out += [("fill", F.hexof(f.get_facecolor()[0]), f.get_alpha()) for f in F.fills(ax)]
    return out + [("scatter", len(F.offsets(s)), s.get_alpha()) for s in F.scatters(ax)]


@facet(P, "refuses", lambda: st.fixed_dictionaries({"d": gen.frames(min_n=2, max_n=20, multiple=2), "grid": st.booleans()}), quick=60)
def divide_refuses(c, ctx):
    if c["grid"]:
        chain = make(c["d"], walkers=2, grid=True)
    else:
        chain = make(c["d"], walkers=1)
    ctx.rejects(chain.divide, "dividing a " + ("grid" if c["grid"] else "single walker"))
    ctx.hit()


# ------------------------------------------------------------------------------------------------ C05
P = prop(
    "C05",
    "chains with unique, tied and huge log posteriors, non-default row labels (shuffled, duplicated, strings), custom column names, weights "
    "and colour parameters; oracle: linear scan of the rows, the first of tied rows counts. Non-trivial: the maximum is not in the first row or the row labels are not positional.",
)


@facet(P, "point", lambda: st.fixed_dictionaries({
    "d": gen.frames(min_n=1, max_n=50), "walkers": st.sampled_from([1, 1, 2, 3]), "cloud": st.booleans(), "filter": st.booleans(),
}), quick=700)
def max_point(c, ctx):
    from chainconsumer import ChainConsumer

    d = c["d"]
    d["n"] *= c["walkers"]
    df = gen.build(d)
    par = gen.params(d, df)
    if c["filter"] and d["n"] > 4:
        k = (len(df) - 1) // c["walkers"] * c["walkers"]
        df = df.iloc[-k:]
    kw = {"color_param": par[0], "plot_cloud": True} if c["cloud"] else {}
    chain = make(d, df, walkers=c["walkers"], **kw)
    shown = par[1:] if c["cloud"] else par
    cc = ChainConsumer().add_chain(chain)
    targets = [(chain, df)]
    if c["walkers"] > 1:
        per = len(df) // c["walkers"]
        targets += [(p, df.iloc[i * per:(i + 1) * per]) for i, p in enumerate(chain.divide())]
        cc2 = ChainConsumer()
        for p, _ in targets[1:]:
            cc2.add_chain(p)
        all_max = cc2.analysis.get_max_posteriors()
        ctx.eq(list(all_max), [p.name for p, _ in targets[1:]] if d["lp"] else [], "chains with a maximum posterior")
    for ch, sub in targets:
        mp = ch.get_max_posterior_point()
        if d["lp"] is None:
            ctx.check(mp is None, "a maximum posterior without a posterior")
            ctx.check(ch.max_posterior_row is None, "a maximum posterior row without a posterior")
            continue
        ctx.check(mp is not None, "no maximum posterior")
        lp = sub[d["lpname"]].to_numpy()
        with ctx.reading("maximum posterior"):
            ctx.close(mp.log_posterior, lp.max(), "maximum log posterior", rtol=0)
            ctx.eq(sorted(mp.coordinate), sorted(shown), "coordinates of the maximum posterior")
            got = [mp.coordinate[p] for p in shown]
            rows = sub[shown].to_numpy()[lp == lp.max()]
            ctx.check(np.array_equal(rows[0], got), f"the coordinate {got} is not that of the first row with the highest posterior {rows[0]}")
            ctx.check(np.array_equal(mp.vec_coordinate, [mp.coordinate[p] for p in mp.coordinate]), "coordinate vector")
            ctx.eq([p for p in mp.coordinate], shown, "order of the coordinates")
            row = ch.max_posterior_row
            ctx.close(float(row[d["lpname"]]), lp.max(), "log posterior of the maximum posterior row", rtol=0)
    got = cc.analysis.get_max_posteriors()
    ctx.eq(list(got), [chain.name] if d["lp"] else [], "chains with a maximum posterior")
    if d["lp"] is not None:
        ctx.eq(got[chain.name].coordinate, chain.get_max_posterior_point().coordinate, "maximum posterior of the chain")
        if np.argmax(df[d["lpname"]].to_numpy()) > 0 or d["index"] != "range":
            ctx.hit()
    ctx.label("index " + d["index"], "posterior " + str(d["lp"]), f"walkers {c['walkers']}")


@facet(P, "collection", lambda: st.fixed_dictionaries({
    "ds": st.lists(gen.frames(min_n=1, max_n=10, max_cols=2), min_size=1, max_size=5), "pick": st.lists(st.integers(0, 4), max_size=4, unique=True)}), quick=200)
def max_collection(c, ctx):
    from chainconsumer import ChainConsumer

    cc = ChainConsumer()
    for i, d in enumerate(c["ds"]):
        cc.add_chain(make(d, name=f"c{i}"))
    have = [f"c{i}" for i, d in enumerate(c["ds"]) if d["lp"] is not None]
    got = cc.analysis.get_max_posteriors()
    ctx.eq(list(got), have, "chains with a maximum posterior")
    pick = [f"c{i}" for i in c["pick"] if i < len(c["ds"])]
    if pick:
        got = cc.analysis.get_max_posteriors(chains=pick)
        ctx.eq(list(got), [p for p in pick if p in have], "chosen chains with a maximum posterior")
        for p in got:
            d = c["ds"][int(p[1:])]
            ctx.close(got[p].log_posterior, gen.build(d)[d["lpname"]].max(), f"maximum of {p}", rtol=0)
    if len(have) not in (0, len(c["ds"])):
        ctx.hit()


# ------------------------------------------------------------------------------------------------ C06
P = prop(
    "C06",
    "weighted chains with correlated columns and requested subsets in any order; oracle: explicit double loop of the reliability-weighted "
    "formula; integer weights, weight scaling and row order as metamorphic relations. Non-trivial: two or more columns and non-uniform weights.",
)


def ref_cov(x: np.ndarray, w: np.ndarray) -> np.ndarray:
    w = np.asarray(w, dtype=float)
    v1, v2 = w.sum(), (w * w).sum()
    mu = (w[:, None] * x).sum(axis=0) / v1
    k = x.shape[1]
    out = np.empty((k, k))
    for i in range(k):
        for j in range(k):
            out[i, j] = (w * (x[:, i] - mu[i]) * (x[:, j] - mu[j])).sum() / (v1 - v2 / v1)
    return out


def correlate(df: pd.DataFrame, par: list[str], mix: float) -> pd.DataFrame:
    df = df.copy()
    base = df[par[0]].to_numpy().copy()
    sd0 = base.std() or 1.0
    for k, p in enumerate(par[1:]):
        x = df[p].to_numpy()
        df[p] = x + mix * (-1) ** k * (x.std() or 1.0) * (base - base.mean()) / sd0
    return df


@facet(P, "matrices", lambda: st.fixed_dictionaries({
    "d": st.one_of(gen.frames(min_n=3, max_n=60, max_cols=4), gen.frames(min_n=3, max_n=60, max_cols=4), gen.frames(min_n=20, max_n=60, min_cols=5, max_cols=12)), "mix": st.sampled_from([0.0, 0.5, 3.0]), "sub": st.lists(st.integers(0, 9), max_size=4, unique=True),
    "pow": st.one_of(st.just([0]), st.lists(st.integers(-120, 120), min_size=1, max_size=4)),
    "scale": st.sampled_from([1e-3, 0.5, 7.0, 1e4]), "perm": gen.seeds}), quick=700)
def matrices(c, ctx):
    d = c["d"]
    df = gen.build(d)
    par = gen.params(d, df)
    df = correlate(df, par, c["mix"])
    for i, p in enumerate(par):  # far from one in absolute terms, which must not matter
        df[p] = df[p] * 2.0 ** c["pow"][i % len(c["pow"])]
    chain = make(d, df)
    sub = [par[i] for i in c["sub"] if i < len(par)] or None
    # a product column may be requested too: any column of the samples
    cols = sub or par
    x, w = df[cols].to_numpy(), gen.weights_of(d, df)
    want = ref_cov(x, w)
    sd = np.sqrt(np.diag(want))
    scale = np.outer(sd, sd)
    cov = chain.get_covariance(columns=sub)
    cor = chain.get_correlation(columns=sub)
    for nm, m in (("covariance", cov), ("correlation", cor)):
        ctx.eq(list(m.columns), cols, f"columns of the {nm}")
        ctx.eq(np.shape(m.matrix), (len(cols), len(cols)), f"shape of the {nm}")
    cm, rm = np.asarray(cov.matrix, dtype=float), np.asarray(cor.matrix, dtype=float)
    tol = 1e-8 * (1 + (np.abs(x).max(axis=0) / sd).max() * 1e-3)
    ctx.check(np.all(np.abs(cm - want) <= tol * scale), lambda: f"covariance {cm.tolist()} instead of {want.tolist()}")
    ctx.check(np.all(np.abs(rm - want / scale) <= tol), lambda: f"correlation {rm.tolist()} instead of {(want / scale).tolist()}")
    ctx.check(np.all(np.abs(np.diag(rm) - 1) <= 1e-10), "diagonal of the correlation is not one")
    ctx.check(np.all(np.abs(rm) <= 1 + 1e-9), "a correlation exceeds one")
    ctx.check(np.all(np.abs(cm - cm.T) <= 1e-12 * scale), "covariance is not symmetric")
    ctx.check(np.linalg.eigvalsh(rm).min() >= -1e-9, "correlation is not positive semi-definite")
    # relations: scaling all the weights, permuting the rows
    df2 = df.iloc[np.random.RandomState(c["perm"]).permutation(len(df))].copy()
    df2[d["wname"]] = (df2[d["wname"]] if d["w"] is not None else 1.0) * c["scale"]
    cov2 = make(d, df2).get_covariance(columns=sub)
    ctx.check(np.all(np.abs(cov2.matrix - cm) <= tol * scale), "covariance depends on the order of the samples or the scale of the weights")
    if len(cols) >= 2 and d["w"] in ("int", "real", "wide"):
        ctx.hit()
    ctx.label("weights " + str(d["w"]), f"columns {len(cols)}", "subset" if sub else "all")


# ------------------------------------------------------------------------------------------------ C07
P = prop(
    "C07",
    "emcee samplers with a filled backend, numpyro-like samplers and arviz inference data of random shape, variable subsets and exclusions, "
    "thinning and discarding; oracle: explicit loops over step, walker and draw. Non-trivial: at least two parameters and two steps or draws.",
    ["numpyro is represented by a stand-in that offers get_samples(group_by_chain=False), the only thing the constructor needs"],
)


@facet(P, "emcee", lambda: st.fixed_dictionaries({
    "steps": st.integers(1, 12), "walkers": st.integers(1, 5), "cols": gen.names(1, 4), "thin": st.integers(1, 4), "discard": st.integers(0, 6), "seed": gen.seeds,
    "explicit": st.booleans()}), quick=250)
def from_emcee(c, ctx):
    import emcee

    from chainconsumer import Chain

    nd = len(c["cols"])
    if c["discard"] + c["thin"] > c["steps"]:
        raise Excluded("nothing left after discarding")
    walkers = max(c["walkers"], 1) * 2 * nd
    rng = np.random.RandomState(c["seed"])
    arr = rng.normal(size=(c["steps"], walkers, nd))
    sampler = emcee.EnsembleSampler(walkers, nd, lambda x: 0.0)
    b = sampler.backend
    b.chain, b.log_prob = arr.copy(), rng.normal(size=(c["steps"], walkers))
    b.iteration, b.initialized, b.blobs = c["steps"], True, None
    thin, discard = (c["thin"], c["discard"]) if c["explicit"] or c["thin"] > 1 or c["discard"] else (1, 0)
    kw = {} if (thin, discard) == (1, 0) and not c["explicit"] else {"thin": thin, "discard": discard}
    chain = Chain.from_emcee(sampler, c["cols"], "em", summary_area=0.5, walkers=1, **kw)
    kept = [arr[s] for s in range(discard + thin - 1, c["steps"], thin)]
    want = np.concatenate(kept, axis=0)
    ctx.eq(sorted(chain.data_columns), sorted(c["cols"]), "parameters")
    for i, col in enumerate(c["cols"]):
        ctx.close(chain.get_data(col), want[:, i], f"samples of {col!r}", rtol=0)
    ctx.eq(chain.name, "em", "name")
    ctx.eq(chain.summary_area, 0.5, "extra setting")
    ctx.check(np.all(chain.weights == 1), "weights")
    if nd >= 2 and len(kept) >= 2:
        ctx.hit()
    ctx.label("thinned" if thin > 1 else "all steps", "discarded" if discard else "nothing discarded")


class FakeNumpyro:
    def __init__(self, data, chains):
        self.data, self.chains = data, chains

    def get_samples(self, group_by_chain: bool = False):
        if group_by_chain:
            return {k: v.reshape(self.chains, -1, *v.shape[1:]) for k, v in self.data.items()}
        return dict(self.data)


@st.composite
def var_cases(draw):
    pool = ["a", "b", "c", "mu", "sigma", "a~b", "tau_2"]
    cols = draw(gen.names(1, 5, pool))
    mode = draw(st.sampled_from(["none", "empty", "keep", "keep", "drop", "drop", "mixed"]))
    pick = draw(st.lists(st.sampled_from(cols), min_size=1, max_size=len(cols), unique=True))
    return {"cols": cols, "mode": mode, "pick": pick, "unknown": draw(st.booleans()), "chains": draw(st.integers(1, 4)), "draws": draw(st.integers(2, 8)),
            "seed": draw(gen.seeds), "shape": draw(st.sampled_from(["flat", "flat", "column", "fortran", "strided"])),
            "event": draw(st.one_of(st.just([]), st.lists(st.sampled_from([[], [1], [2], [3], [2, 2], [1, 3], [11]]), min_size=5, max_size=5)))}


def var_expect(c):
    cols, pick = c["cols"], c["pick"]
    if c["mode"] == "none":
        return None, cols
    if c["mode"] == "empty":
        return [], cols
    extra = ["nowhere"] if c["unknown"] else []
    if c["mode"] == "keep":
        return pick + extra, [x for x in cols if x in pick]
    if c["mode"] == "drop":
        return ["~" + p for p in pick + extra], [x for x in cols if x not in pick]
    return [pick[0], "~" + pick[-1]], None


@facet(P, "numpyro", var_cases, quick=300)
def from_numpyro(c, ctx):
    from chainconsumer import Chain

    rng = np.random.RandomState(c["seed"])
    n = c["chains"] * c["draws"]
    data = {k: rng.normal(size=(n, *event(c, i))) for i, k in enumerate(c["cols"])}
    var, want = var_expect(c)
    made = {"flat": lambda v: v.copy(), "column": lambda v: v[:, None].copy() if v.ndim == 1 else v.copy(), "fortran": np.asfortranarray, "strided": lambda v: np.repeat(v, 2, axis=0)[::2]}[c["shape"]]
    sampler = FakeNumpyro({k: made(v) for k, v in data.items()}, c["chains"])
    _variables(c, ctx, lambda **kw: Chain.from_numpyro(sampler, "np", **kw), data, var, want)


def event(c, i):
    return tuple(c["event"][i]) if c.get("event") else ()


def elements(name, v):
    """{column: draws} of a variable: a column for each of its elements, named by its indices unless it is the only one."""
    v = np.asarray(v)
    if v[0].size == 1:
        return {name: np.array([np.asarray(x).item() for x in v])}
    return {f"{name}[{','.join(str(k) for k in i)}]": np.array([x[i] for x in v]) for i in np.ndindex(v.shape[1:])}


@facet(P, "arviz", var_cases, quick=120)
def from_arviz(c, ctx):
    import arviz as az

    from chainconsumer import Chain

    rng = np.random.RandomState(c["seed"])
    data = {k: rng.normal(size=(c["chains"], c["draws"], *event(c, i))) for i, k in enumerate(c["cols"])}
    idata = az.from_dict(posterior=data)
    var, want = var_expect(c)
    flat = {k: np.array([v[i, j] for i in range(c["chains"]) for j in range(c["draws"])]) for k, v in data.items()}
    _variables(c, ctx, lambda **kw: Chain.from_arviz(idata, "np", **kw), flat, var, want)


def _variables(c, ctx, build, flat, var, want):
    kw = {} if var is None else {"var_names": var}
    if want is None:
        ctx.rejects(lambda: build(**kw), "inclusion mixed with exclusion of variables")
        ctx.label("mixed")
        return
    if not want:
        raise Excluded("no variable left")
    chain = build(num_free_params=3, **kw)
    flat = {p: v for k in want for p, v in elements(k, flat[k]).items()}
    want = list(flat)
    ctx.eq(sorted(chain.data_columns), sorted(want), "variables of the chain")
    for p in want:
        ctx.close(chain.get_data(p), flat[p], f"samples of {p!r}", rtol=0)
    ctx.eq(chain.num_free_params, 3, "extra setting")
    ctx.eq(chain.name, "np", "name")
    ctx.label(c["mode"])
    if len(want) >= 2:
        ctx.hit()


# ------------------------------------------------------------------------------------------------ C08
P = prop(
    "C08",
    "random means, positive-definite covariances and column names for the covariance constructor (a million samples each), random dimension, "
    "seed and size for the example generator; oracle: moments within seven standard errors, exact repeatability per seed, and a log posterior "
    "that is the same quadratic form for every row. Non-trivial: two or more dimensions.",
    ["the covariance constructor is unseeded: each moment is allowed seven standard errors (1e-11 per comparison)"],
)


@facet(P, "from_covariance", lambda: st.fixed_dictionaries({
    "cols": gen.names(1, 3), "mean": st.lists(st.sampled_from([0.0, 5.0, -300.0, 0.001, 1e4]), min_size=3, max_size=3),
    "sd": st.lists(st.sampled_from([1.0, 0.01, 30.0]), min_size=3, max_size=3), "rho": st.sampled_from([0.0, 0.4, -0.45, 0.9]), "lists": st.booleans()}), quick=16)
def from_covariance(c, ctx):
    from chainconsumer import Chain

    k = len(c["cols"])
    mean, sd = np.array(c["mean"][:k]), np.array(c["sd"][:k])
    cor = np.eye(k)
    cor[0, 1:2] = cor[1:2, 0] = c["rho"]
    cov = cor * np.outer(sd, sd)
    args = (mean.tolist(), cov.tolist()) if c["lists"] else (mean, cov)
    chain = Chain.from_covariance(*args, columns=c["cols"], name="f", color="red", statistics=gen.stat("mean"))
    ctx.eq(list(chain.data_columns), c["cols"], "columns")
    ctx.eq(chain.name, "f", "name")
    ctx.eq(chain.statistics, gen.stat("mean"), "extra setting")
    x = chain.data_samples.to_numpy()
    n = len(x)
    ctx.check(n >= 1000, "too few samples")
    ctx.check(np.all(chain.weights == 1), "weights")
    se = sd / np.sqrt(n)
    ctx.check(np.all(np.abs(x.mean(axis=0) - mean) <= 7 * se), lambda: f"means {x.mean(axis=0)} instead of {mean}")
    got = np.cov(x, rowvar=False).reshape(k, k)
    tol = 7 * np.sqrt((1 + cor**2) / n) * np.outer(sd, sd)
    ctx.check(np.all(np.abs(got - cov) <= tol), lambda: f"covariance {got.tolist()} instead of {cov.tolist()}")
    z = (x - mean) / sd
    ctx.check(np.all(np.abs((z**4).mean(axis=0) - 3) <= 7 * np.sqrt(96 / n)), "samples are not Gaussian")
    if k >= 2:
        ctx.hit()


@facet(P, "make_sample", lambda: st.fixed_dictionaries({
    "dim": st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 40)), "seed": st.integers(0, 10**6), "rand": st.booleans(), "n": st.sampled_from([200, 500, 2000]), "noise": gen.seeds}), quick=150)
def make_sample(c, ctx):
    from chainconsumer import make_sample as ms

    kw = {"num_dimensions": c["dim"], "seed": c["seed"], "randomise_mean": c["rand"], "num_points": c["n"]}
    try:
        a = ms(**kw)
    except np.linalg.LinAlgError:
        if c["dim"] <= 5:
            raise
        raise Excluded("a random covariance of many dimensions is singular to rounding") from None
    np.random.seed(c["noise"] % 2**31)  # the global generator must not matter
    np.random.normal(size=3)
    b = ms(**kw)
    cols = [chr(65 + i) for i in range(c["dim"])]
    ctx.eq(list(a.columns), [*cols, "log_posterior"], "columns")
    ctx.eq(len(a), c["n"], "number of samples")
    ctx.check(a.equals(b), "the same seed gives different samples")
    other = ms(**{**kw, "seed": c["seed"] + 1})
    ctx.check(not np.array_equal(a[cols].to_numpy(), other[cols].to_numpy()), "different seeds give the same samples")
    x = a[cols].to_numpy().reshape(len(a), -1)
    lp = a["log_posterior"].to_numpy()
    n = len(x)
    mean = np.arange(c["dim"]) * 5.0
    ctx.check(np.all(np.abs(x.mean(axis=0) - mean) <= (1.0 if c["rand"] else 0.0) + 7 / np.sqrt(n)), "means of the example")
    ctx.check(np.all(np.abs(x.std(axis=0) - 1) <= 7 / np.sqrt(2 * n)), "standard deviations of the example")
    # the log posterior is minus half a squared distance plus a constant: it must be an exact quadratic form of the coordinates
    k = c["dim"]
    z = x - x.mean(axis=0)
    u, s, vt = np.linalg.svd(z, full_matrices=False)
    if s[-1] > 1e-3 * s[0] and (1 + k) * (2 + k) / 2 <= n / 4:
        q = u * np.sqrt(n)
        feats = [np.ones(n)] + [q[:, i] for i in range(k)] + [q[:, i] * q[:, j] for i in range(k) for j in range(i, k)]
        m = np.stack(feats, axis=1)
        coef, *_ = np.linalg.lstsq(m, lp, rcond=None)
        ctx.check(np.max(np.abs(m @ coef - lp)) <= 1e-6 * (1 + np.ptp(lp)), "the log posterior is not that of a Gaussian")
        # whitened by the sample covariance, the form is close to -|q|^2/2
        quad = coef[1 + k:]
        diag = [quad[sum(k - t for t in range(i))] for i in range(k)]
        ctx.check(np.all(np.abs(np.array(diag) + 0.5) <= 7 * np.sqrt(0.5 / n) + 20.0 / n), f"the log posterior does not belong to these samples: {diag}")
    # expected log posterior of a k-dimensional Gaussian under itself, relative to its maximum: -k/2
    if c["dim"] >= 2:
        ctx.hit()
    ctx.label(f"dim {c['dim']}")
