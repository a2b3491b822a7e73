"""T: text of summaries and LaTeX tables.  M: model comparison.  D: convergence diagnostics.  K: colours."""

from __future__ import annotations

import itertools
import math
import os
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen
from ..core import Ctx, Excluded, Violation, facet, prop

# ------------------------------------------------------------------------------------------------ reading bound text
NUM = r"(-?\d+(?:\.\d+)?)"
PM = re.compile(rf"^{NUM}\\pm {NUM}$")
ASYM = re.compile(rf"^{NUM}\^\{{\+{NUM}\}}_\{{-{NUM}\}}$")
SCALED = re.compile(r"^\\left\( (.*) \\right\) \\times 10\^\{(-?\d+)\}$")


def read_bound(ctx: Ctx, text: str) -> tuple[float, float, float, float, bool]:
    """(centre, plus, minus, value of one unit of the last digit shown, symmetric notation)"""
    m = SCALED.match(text)
    body, expo = (m.group(1), int(m.group(2))) if m else (text, 0)
    a, s = ASYM.match(body), PM.match(body)
    ctx.check(a or s, lambda: f"unreadable value {text!r}")
    parts = a.groups() if a else (s.group(1), s.group(2), s.group(2))
    decimals = {len(p.partition(".")[2]) for p in parts}
    ctx.check(len(decimals) == 1, lambda: f"mixed precision in {text!r}")
    v = [float(f"{p}e{expo}") for p in parts]
    return v[0], v[1], v[2], 10.0 ** (expo - decimals.pop()), bool(s)


def check_bound_text(ctx: Ctx, text: str, lower: float, center: float, upper: float) -> None:
    """The printed value is the bound rounded to at least two significant digits of its smaller error."""
    up, lo = upper - center, center - lower
    with ctx.reading(f"text {text!r}"):
        c, p, m, unit, sym = read_bound(ctx, text)
    errs = [e for e in (abs(up), abs(lo)) if e > 0] or ([abs(center)] if center else [1.0])
    need = 0.57 * 10.0 ** (math.floor(math.log10(min(errs)) + 1e-12) - 1)
    rnd = 4e-16 * (abs(upper) + abs(lower) + abs(center))
    for name, shown, true in (("centre", c, center), ("upper error", p, up), ("lower error", m, lo)):
        ctx.check(abs(shown - true) <= need + rnd + 1e-9 * abs(true) * (name != "centre"),
                  lambda: f"{text!r} shows a {name} of {shown} for {true!r} (bounds {lower!r}, {center!r}, {upper!r})")
    ctx.check(not re.search(r"-0(\.0*)?(?![\d.])", text.split("^")[0].split("\\pm")[0]), lambda: f"negative zero in {text!r}")


def analysis():
    from chainconsumer import ChainConsumer

    return ChainConsumer().analysis


def mk(lower, center, upper):
    from chainconsumer.analysis import Bound

    return Bound(lower=lower, center=center, upper=upper)


@st.composite
def bounds(draw):
    """centre and errors with independent magnitudes and random digits"""
    e = draw(st.integers(-12, 12) | st.sampled_from([-200, -60, 60, 200, 0, 0, -1, -2, -3, 1, 2, 3]))
    up = draw(st.floats(1.0, 9.9999)) * 10.0**e
    kind = draw(st.sampled_from(["near", "equal", "far", "zero lower", "zero upper", "both zero"]))
    lo = {"near": lambda: draw(st.floats(1.0, 9.9999)) * 10.0**e, "equal": lambda: up,
          "far": lambda: draw(st.floats(1.0, 9.9999)) * 10.0 ** (e + draw(st.integers(-3, 3))),
          "zero lower": lambda: 0.0, "zero upper": lambda: draw(st.floats(1.0, 9.9)) * 10.0**e, "both zero": lambda: 0.0}[kind]()
    if kind in ("zero upper", "both zero"):
        up = 0.0
    c = draw(st.sampled_from([0.0, 1.0, -1.0, 1.0, -1.0])) * draw(st.floats(1.0, 9.9999)) * 10.0 ** (e + draw(st.integers(-4, 6)))
    return [c - lo, c, c + up]


# ------------------------------------------------------------------------------------------------ T01
P = prop(
    "T01",
    "bounds with independent random centre and errors over 400 decades, equal, unequal and zero errors, lists of up to four bands, "
    "wrapping and labels; the text is parsed back into numbers. Non-trivial: at least one non-zero error.",
)


@facet(P, "round_trip", lambda: st.fixed_dictionaries({"b": bounds(), "wrap": st.booleans(), "label": st.sampled_from([None, None, "x", r"\Omega_m", "a b", "%"])}), quick=1500)
def round_trip(c, ctx):
    b = mk(*c["b"])
    kw = {"wrap": c["wrap"]}
    if c["label"]:
        kw["label"] = c["label"]
    t = analysis().get_parameter_text(b, **kw)
    with ctx.reading("text"):
        if c["wrap"]:
            ctx.check(len(t) > 2 and t[0] == "$" == t[-1] and "$" not in t[1:-1], lambda: f"{t!r} is not wrapped in dollar signs")
            t = t[1:-1]
        else:
            ctx.check("$" not in t, lambda: f"{t!r} contains dollar signs")
        if c["label"]:
            ctx.check(t.startswith(c["label"] + " = "), lambda: f"{t!r} does not start with the label")
            t = t[len(c["label"]) + 3:]
    check_bound_text(ctx, t, *c["b"])
    lo, ce, up = c["b"]
    sym = "\\pm" in t
    if up - ce == ce - lo and up != ce:
        ctx.check(sym, lambda: f"equal errors are not written with \\pm: {t!r}")
    if up != ce or lo != ce:
        ctx.hit()
    ctx.label("symmetric" if sym else "asymmetric", "scaled" if "times" in t else "plain")


@facet(P, "bands", lambda: st.fixed_dictionaries({
    "bs": st.lists(bounds() | st.just(None), min_size=0, max_size=4), "partly": st.sampled_from([0, 0, 1, 2, 4, 5]), "wrap": st.booleans(), "label": st.sampled_from([None, "x", r"\alpha"])}), quick=500)
def bands(c, ctx):
    # Bands without limits, or with only some of them, are left out
    bs = [mk(*(float(i) if c["partly"] >> i & 1 else None for i in range(3))) if b is None else mk(*b) for b in c["bs"]]
    kw = {"wrap": c["wrap"]}
    if c["label"]:
        kw["label"] = c["label"]
    t = analysis().get_parameter_text(bs, **kw)
    real = [b for b in c["bs"] if b is not None]
    if len(bs) < 2:
        ctx.eq(t, analysis().get_parameter_text(bs[0], **kw) if bs else "", "text of a list of one bound")
        return
    if not real:
        ctx.eq(t, "", "text of bands without limits")
        return
    lines = t.split("\n")
    if c["label"]:
        ctx.eq(lines[0], f"${c['label']}$" if c["wrap"] else c["label"], "first line")
        lines = lines[1:]
    ctx.eq(len(lines), len(real), "number of band lines")
    for i, (ln, b) in enumerate(zip(lines, real), start=1):
        ctx.check(ln.startswith(f"I{i}: "), lambda: f"line {ln!r} is not numbered I{i}")
        body = ln[len(f"I{i}: "):]
        if c["wrap"]:
            ctx.check(body[0] == "$" == body[-1], lambda: f"{body!r} is not wrapped")
            body = body[1:-1]
        check_bound_text(ctx, body, *b)
    if len(real) > 1:
        ctx.hit()


@facet(P, "unconstrained", lambda: st.fixed_dictionaries({"mask": st.integers(0, 6), "b": bounds(), "wrap": st.booleans(), "label": st.sampled_from([None, "x"])}), quick=80)
def unconstrained(c, ctx):
    v = [x if c["mask"] >> i & 1 else None for i, x in enumerate(c["b"])]
    kw = {"label": c["label"]} if c["label"] else {}
    ctx.eq(analysis().get_parameter_text(mk(*v), wrap=c["wrap"], **kw), "", f"text of an incomplete bound {v}")
    ctx.eq(analysis().get_parameter_text(None, wrap=c["wrap"], **kw), "", "text of no bound")


# ------------------------------------------------------------------------------------------------ LaTeX
def parse_table(ctx: Ctx, tex: str) -> dict:
    """caption, label, column specification, list of rows (lists of cells), number of \\hline"""
    with ctx.reading("LaTeX table"):
        ctx.check(tex.strip().startswith("\\begin{table}") and tex.strip().endswith("\\end{table}"), "not a table environment")
        ctx.eq(tex.count("\\begin{tabular}"), 1, "tabular environments")
        head, rest = tex.split("\\begin{tabular}", 1)
        body, tail = rest.split("\\end{tabular}", 1)
        cap = re.search(r"\\caption\{(.*)\}\n", head)
        lab = re.search(r"\\label\{(.*)\}\n", head)
        ctx.check(cap and lab, "caption or label missing")
        spec = re.match(r"\{([^}]*)\}", body)
        ctx.check(spec, "no column specification")
        body = body[spec.end():]
        n_h = body.count("\\hline")
        body = body.replace("\\hline", "")
        rows = [r.strip() for r in re.split(r"\\\\\s*\n", body)]
        ctx.eq(rows[-1], "", "text after the last row")
        cells = [[x.strip() for x in re.split(r"(?<!\\)&", r)] for r in rows[:-1]]
        width = len(re.sub(r"[^clr]", "", spec.group(1)))
        for r in cells:
            ctx.check(len(r) == width, lambda: f"a row of {len(r)} cells in a table of {width} columns: {r}")
    return {"caption": cap.group(1), "label": lab.group(1), "spec": spec.group(1), "rows": cells, "hlines": n_h}


TEXTS = ["", "A caption", "100% of $x_1$", "tab:my_label", "with {braces} inside", "%s %d %%", "ünï"]
T_NAMES = ["x", "y", "z", "$\\Omega_m$", "$\\alpha$", "a b", "H0", "mass", "col-1", "100%", "z_1"]


@st.composite
def collections(draw, max_chains=3, min_n=60, max_n=400, stats=gen.STATS, mm=True):
    n = draw(st.integers(1, max_chains))
    chains = []
    for i in range(n):
        chains.append({
            "d": draw(gen.frames(min_n=min_n, max_n=max_n, min_cols=1, max_cols=4, pool=T_NAMES, indexes=["range", "shuffled"], weights=[None, "real"])),
            "stat": draw(st.sampled_from(stats)), "area": draw(st.sampled_from([0.5, 0.6827, 0.9])), "mm": draw(st.booleans()) if mm else False,
            "smooth": draw(st.sampled_from([None, 0, 1])), "cloud": draw(st.sampled_from([True] * 5 + [False])),
            "colour": draw(st.sampled_from([False] * 3 + [True])),
        })
    return chains


NAMES = ["A", "Model 1", "$\\Lambda$CDM", "50% mix"]


def build_cc(chains):
    from chainconsumer import Chain, ChainConsumer

    cc = ChainConsumer()
    out = []
    for i, c in enumerate(chains):
        d = c["d"]
        df = gen.build(d)
        kw = dict(gen.chain_kwargs(d))
        if c["smooth"] is not None:
            kw["smooth"] = c["smooth"]
        if c["mm"] and c["stat"] == "hdi":
            kw["multimodal"] = True
        if not c["cloud"]:
            kw.update(plot_contour=False, plot_cloud=False)
        elif c.get("colour"):
            kw.update(plot_cloud=True, color_param=gen.params(d, df)[-1])
        ch = Chain(samples=df, name=NAMES[i], statistics=gen.stat(c["stat"]), summary_area=c["area"], **kw)
        cc.add_chain(ch)
        out.append((ch, gen.params(d, df), df, d))
    return cc, out


P = prop(
    "T02",
    "collections of one to three chains with partly overlapping parameters, statistics, labels, blinding, selections; the LaTeX text is "
    "parsed and every cell compared with the chain's summary. Non-trivial: at least two cells hold values.",
)


@facet(P, "table", lambda: st.fixed_dictionaries({
    "chains": collections(), "transpose": st.booleans(), "hlines": st.booleans(), "caption": st.sampled_from([None] + TEXTS), "label": st.sampled_from([None] + TEXTS),
    "blank": st.sampled_from(["--", "", "n/a"]), "ask": st.sampled_from(["all", "chains", "names", "columns", "both"]), "order": gen.seeds,
    "labels": st.booleans(), "blind": st.sampled_from(["no", "no", "no", "some", "all"]), "file": st.sampled_from(["no", "str", "path"]),
}), quick=150)
def table(c, ctx):
    from pathlib import Path

    from chainconsumer import PlotConfig

    cc, chains = build_cc(c["chains"])
    rng = np.random.RandomState(c["order"])
    shown = [x for x in chains if x[0].plot_contour]
    sel = shown
    kw = {}
    if c["ask"] in ("chains", "names", "both") and shown:
        sel = [shown[i] for i in rng.permutation(len(shown))[: 1 + rng.randint(len(shown))]]
        kw["chains"] = [x[0].name if c["ask"] == "names" else x[0] for x in sel]
    union, every = [], []
    for ch, par, *_ in sel:
        colour = ch.color_param if ch.plot_cloud else None  # by itself not a parameter to show, but it may be asked for
        union += [p for p in par if p not in union and p != colour]
        every += [p for p in par if p not in every]
    cols = union
    if c["ask"] in ("columns", "both") and every:
        cols = [every[i] for i in rng.permutation(len(every))[: 1 + rng.randint(len(every))]]
        kw["columns"] = cols
    cfg = {}
    labels = {p: f"L[{i}]" for i, p in enumerate(every)} if c["labels"] else {}
    if labels:
        cfg["labels"] = labels
    blind = []
    if c["blind"] == "all":
        cfg["blind"], blind = True, cols
    elif c["blind"] == "some" and cols:
        blind = cols[: 1 + rng.randint(len(cols))]
        cfg["blind"] = blind
    if cfg:
        cc.set_plot_config(PlotConfig(**cfg))
    want_cols = [p for p in cols if p not in blind]
    fn = None
    if c["file"] != "no":
        fn = os.path.join(ctx.scratch, "table.tex")
        kw["filename"] = fn if c["file"] == "str" else Path(fn)
        with open(fn, "w", encoding="utf-8") as f:
            f.write("what was there before\n" * 400)
    if c["caption"] is not None:
        kw["caption"] = c["caption"]
    if c["label"] is not None:
        kw["label"] = c["label"]
    if c["blank"] != "--":
        kw["blank_fill"] = c["blank"]
    tex = cc.analysis.get_latex_table(transpose=c["transpose"], hlines=c["hlines"], **kw)
    if fn:
        with ctx.reading("file"):
            ctx.eq(open(fn, encoding="utf-8").read(), tex, "content of the file")
    t = parse_table(ctx, tex)
    ctx.eq(t["caption"], c["caption"] or "", "caption")
    ctx.eq(t["label"], "tab:model_params" if c["label"] is None else c["label"], "label")
    ctx.check(c["hlines"] == (t["hlines"] == 3) and (t["hlines"] in (0, 3)), lambda: f"{t['hlines']} horizontal lines with hlines={c['hlines']}")
    rows = t["rows"]
    if c["transpose"]:
        ctx.eq({len(r) for r in rows}, {len(sel) + 1}, "cells per row of the transposed table")
        rows = [list(r) for r in zip(*rows)]
    ctx.check(re.fullmatch("c*", t["spec"]), "column specification")
    ctx.eq(rows[0], ["Parameter" if c["transpose"] else "Model", *[labels.get(p, p) for p in want_cols]], "parameters")
    ctx.eq([r[0] for r in rows[1:]], [x[0].name for x in sel], "chains")
    summ = cc.analysis.get_summary(chains=[x[0] for x in sel], columns=every)
    filled = 0
    for r, (ch, par, df, _) in zip(rows[1:], sel):
        for p, cell in zip(want_cols, r[1:]):
            what = f"cell of {ch.name!r}, {p!r}"
            if p not in par:
                ctx.eq(cell, c["blank"], what)
                continue
            b = summ[ch.name][p]
            bs = b if isinstance(b, list) else [b]
            if bs[0].lower is None:
                ctx.eq(cell, "", what)
                continue
            filled += 1
            if len(bs) == 1:
                ctx.check(cell[:1] == "$" == cell[-1:], lambda: f"{what}: {cell!r}")
                check_bound_text(ctx, cell[1:-1], *map(float, bs[0].array))
            else:
                parts = cell.split("\n")
                ctx.eq(len(parts), len(bs), f"{what}: number of bands")
                for i, (ln, bb) in enumerate(zip(parts, bs), start=1):
                    ln = ln.strip()
                    ctx.check(ln.startswith(f"I{i}: $") and ln.endswith("$"), lambda: f"{what}: {ln!r}")
                    check_bound_text(ctx, ln[len(f"I{i}: $"):-1], *map(float, bb.array))
    for p in blind:
        if c["labels"]:
            ctx.check(labels[p] not in tex, lambda: f"blinded parameter {p!r} appears in the table")
    if filled >= 2:
        ctx.hit()
    ctx.label("transposed" if c["transpose"] else "plain", "ask " + c["ask"], "blind " + c["blind"])


# ------------------------------------------------------------------------------------------------ T03
P = prop(
    "T03",
    "random weighted samples, selections and orders of columns, labels and captions; the LaTeX text is parsed and compared with weighted "
    "moments computed directly. Non-trivial: at least two columns.",
)


@facet(P, "tables", lambda: st.fixed_dictionaries({
    "chains": collections(max_chains=2, min_n=4, max_n=60), "which": st.sampled_from(["cov", "cor"]), "by": st.sampled_from(["name", "chain", "only"]), "order": gen.seeds,
    "sub": st.booleans(), "labels": st.booleans(), "caption": st.sampled_from([None] + TEXTS), "label": st.sampled_from([None] + TEXTS),
}), quick=400)
def matrix_tables(c, ctx):
    from chainconsumer import PlotConfig

    cc, chains = build_cc(c["chains"])
    rng = np.random.RandomState(c["order"])
    ch, par, df, d = chains[rng.randint(len(chains))]
    cols = par
    kw = {}
    if c["sub"]:
        cols = [par[i] for i in rng.permutation(len(par))[: 1 + rng.randint(len(par))]]
        kw["columns"] = cols
    labels = {p: f"L[{i}]" for i, p in enumerate(par)} if c["labels"] else {}
    if labels:
        cc.set_plot_config(PlotConfig(labels=labels))
    if c["caption"] is not None:
        kw["caption"] = c["caption"]
    if c["label"] is not None:
        kw["label"] = c["label"]
    fn = cc.analysis.get_covariance_table if c["which"] == "cov" else cc.analysis.get_correlation_table
    if c["by"] == "only" and len(chains) > 1:
        ctx.rejects(lambda: fn(None, **kw), "table of no chain in particular out of several")
    t = parse_table(ctx, fn(ch.name if c["by"] == "name" else ch if c["by"] == "chain" or len(chains) > 1 else None, **kw))
    w = gen.weights_of(d, df)
    x = df[cols].to_numpy(float)
    mu = (w[:, None] * x).sum(0) / w.sum()
    cov = (w[:, None] * (x - mu)).T @ (x - mu) / (w.sum() - (w * w).sum() / w.sum())
    if c["which"] == "cor":
        sd = np.sqrt(np.diag(cov))
        cov = cov / np.outer(sd, sd)
    names = [labels.get(p, p) for p in cols]
    ctx.eq(t["caption"], ("Parameter Covariance" if c["which"] == "cov" else "Parameter Correlations") if c["caption"] is None else c["caption"], "caption")
    if c["label"] is not None:
        ctx.eq(t["label"], c["label"], "label")
    ctx.eq(t["rows"][0], ["", *names], "header")
    ctx.eq([r[0] for r in t["rows"][1:]], names, "row names")
    for i, r in enumerate(t["rows"][1:]):
        for j, cell in enumerate(r[1:]):
            with ctx.reading("entry"):
                v = float(cell)
            ctx.check(abs(v - cov[i, j]) <= 0.00501 + 1e-9 * abs(cov[i, j]), lambda: f"entry {names[i]}, {names[j]} is {cell}, expected {cov[i, j]!r}")
    if len(cols) > 1:
        ctx.hit()
    ctx.label(c["which"], c["by"])


# ------------------------------------------------------------------------------------------------ M
@st.composite
def models(draw, max_models=5):
    out = []
    for i in range(draw(st.integers(1, max_models))):
        d = draw(gen.frames(min_n=12, max_n=80, min_cols=1, max_cols=3, weights=[None, "real", "int"], pool=["a", "b", "c", "x", "y"], indexes=["range", "shuffled", "str"], extreme=draw(st.sampled_from([False, False, True]))))
        d["lp"] = draw(st.sampled_from(["real", "real", "real", "real", "ties", "big", None]))
        free = draw(st.sampled_from([None] + [0, 1, 2, 3, 5, 10] * 2))
        neff = draw(st.sampled_from([None, "small"] + ["big"] * 5))
        out.append({"d": gen.normalise(d), "free": free,
                    "neff": None if neff is None else (max(0.25, float((free or 0) + draw(st.sampled_from([2, 2, 0.5, 1.5, -0.5, 3])))) if neff == "small" else draw(st.sampled_from([20.0, 35.5, 400.0, 1e6])))})
    return out


def build_models(ms):
    from chainconsumer import Chain, ChainConsumer

    cc, info = ChainConsumer(), {}
    for i, m in enumerate(ms):
        d = m["d"]
        df = gen.build(d)
        kw = gen.chain_kwargs(d)
        if m["free"] is not None:
            kw["num_free_params"] = m["free"]
        if m["neff"] is not None:
            kw["num_eff_data_points"] = m["neff"]
        name = f"model {i}"
        cc.add_chain(Chain(samples=df, name=name, **kw))
        info[name] = (df, d, m["free"], m["neff"])
    return cc, info


def want_ic(info):
    """AICc, BIC and DIC by their definitions, before subtraction of the smallest; NaN marks an ambiguous nearest sample."""
    a, b, dd = {}, {}, {}
    for name, (df, d, k, n) in info.items():
        if d["lp"] is None:
            continue
        p = df[d["lpname"]].to_numpy()
        w = gen.weights_of(d, df)
        if k is not None and n is not None:
            a[name] = 2 * k - 2 * p.max() + 2 * k * (k + 1) / (n - k - 1)
            b[name] = k * math.log(n) - 2 * p.max()
        x = df[gen.params(d, df)].to_numpy(float)
        mu = (w[:, None] * x).sum(0) / w.sum()
        r = ((x - mu) ** 2).sum(1)
        o = np.argsort(r)
        at = -2 * p[o[0]]
        if len(o) > 1 and math.sqrt(r[o[1]]) <= math.sqrt(r[o[0]]) * (1 + 1e-9) + 1e-12 * np.abs(x).max():
            at = np.nan
        dbar = (w * -2 * p).sum() / w.sum()
        dd[name] = 2 * dbar - at
    return a, b, dd


def rel(d):
    m = min(d.values()) if d else 0.0
    return {k: v - m for k, v in d.items()}


def scale_of(info):
    return max([1.0] + [np.abs(df[d["lpname"]]).max() for df, d, *_ in info.values() if d["lp"] is not None])


P = prop(
    "M01",
    "one to five models with random weighted samples, posteriors, free parameters and data counts, some of them missing; both criteria "
    "recomputed from their definitions. Non-trivial: at least two models with a value.",
    ["the data count is not the number of free parameters plus one, where the AICc correction is undefined"],
)


@facet(P, "criteria", models, quick=700)
def criteria(c, ctx):
    cc, info = build_models(c)
    a, b, _ = want_ic(info)
    for name, got, want in (("AIC", cc.comparison.aic(), a), ("BIC", cc.comparison.bic(), b)):
        with ctx.reading(name):
            ctx.eq(set(got), set(want), f"models with an {name}")
            for k, v in rel(want).items():
                ctx.close(got[k], v, f"{name} of {k}", rtol=1e-9, atol=1e-11 * scale_of(info))
    if len(a) >= 2:
        ctx.hit()
    ctx.label(f"{len(a)} of {len(info)}")


P = prop(
    "M02",
    "one to five models with random weighted samples and posteriors; mean deviance plus effective parameters recomputed from the definition. "
    "Non-trivial: at least two models with a value.",
    ["the deviance at the mean is that of the sample nearest to the weighted mean; samples with two equally near ones are left out"],
)


@facet(P, "dic", models, quick=700)
def dic(c, ctx):
    cc, info = build_models(c)
    _, _, dd = want_ic(info)
    if any(math.isnan(v) for v in dd.values()):
        raise Excluded("two samples equally near the mean")
    got = cc.comparison.dic()
    with ctx.reading("DIC"):
        ctx.eq(set(got), set(dd), "models with a DIC")
        for k, v in rel(dd).items():
            ctx.close(got[k], v, f"DIC of {k}", rtol=1e-9, atol=1e-9 * scale_of(info))
    if len(dd) >= 2:
        ctx.hit()
    ctx.label(f"{len(dd)} of {len(info)}")


P = prop(
    "T04",
    "one to five models with partly missing information, every choice of columns, sort key and direction; the LaTeX text is parsed and "
    "compared with the criteria. Non-trivial: at least two rows.",
)


@facet(P, "comparison", lambda: st.fixed_dictionaries({
    "ms": models(), "cols": st.integers(1, 7), "sort": st.integers(0, 2), "desc": st.booleans(), "hlines": st.booleans(),
    "caption": st.sampled_from([None] + TEXTS), "label": st.sampled_from([None] + TEXTS),
}), quick=400)
def comparison(c, ctx):
    cc, info = build_models(c["ms"])
    use = [k for i, k in enumerate(("aic", "bic", "dic")) if c["cols"] >> i & 1]
    sort = ("aic", "bic", "dic")[c["sort"]]
    kw = {"sort": sort, "descending": c["desc"], "hlines": c["hlines"], **{k: k in use for k in ("aic", "bic", "dic")}}
    if c["caption"] is not None:
        kw["caption"] = c["caption"]
    if c["label"] is not None:
        kw["label"] = c["label"]
    if sort not in use:
        ctx.rejects(lambda: cc.comparison.comparison_table(**kw), f"sorting by {sort} without its column")
        ctx.label("rejected")
        return
    vals = dict(zip(("aic", "bic", "dic"), want_ic(info)))
    if "dic" in use and any(math.isnan(v) for v in vals["dic"].values()):
        raise Excluded("two samples equally near the mean")
    t = parse_table(ctx, cc.comparison.comparison_table(**kw))
    ctx.eq(t["caption"], c["caption"] or "", "caption")
    ctx.eq(t["label"], "tab:model_comp" if c["label"] is None else c["label"], "label")
    ctx.check(t["hlines"] == (3 if c["hlines"] else 0), "horizontal lines")
    ctx.eq(t["rows"][0], ["Model"] + [k.upper() for k in use], "header")
    want = {k: rel(vals[k]) for k in use}
    names = set().union(*[set(v) for v in want.values()]) if want else set()
    rows = t["rows"][1:]
    ctx.eq(sorted(r[0] for r in rows), sorted(names), "models in the table")
    tol = 0.0501 + 1e-9 * scale_of(info)
    keys = []
    for r in rows:
        for k, cell in zip(use, r[1:]):
            with ctx.reading("cell"):
                v = float(cell)
            if r[0] in want[k]:
                ctx.check(abs(v - want[k][r[0]]) <= tol, lambda: f"{k} of {r[0]} is shown as {cell}, expected {want[k][r[0]]!r}")
            else:
                ctx.check(math.isnan(v), lambda: f"{k} of {r[0]} is shown as {cell} although it cannot be computed")
        keys.append(want[sort].get(r[0]))
    known = [k for k in keys if k is not None]
    ctx.check(keys[: len(known)] == known, "a model without the sort key is listed before one with it")
    eps = 1e-9 * scale_of(info)
    ok = all((x >= y - eps) if c["desc"] else (x <= y + eps) for x, y in itertools.pairwise(known))
    ctx.check(ok, lambda: f"rows are not in {'descending' if c['desc'] else 'ascending'} order of {sort}: {known}")
    if len(rows) > 1:
        ctx.hit()
    ctx.label(sort, "desc" if c["desc"] else "asc", f"{len(use)} columns")


# ------------------------------------------------------------------------------------------------ D
@st.composite
def walks(draw, min_walkers=1, max_chains=3):
    n_ch = draw(st.integers(1, max_chains))
    out = []
    for _ in range(n_ch):
        out.append({
            "m": draw(st.integers(min_walkers, 8)), "n": draw(st.sampled_from([20, 30, 57, 100, 300])), "k": draw(st.integers(1, 4)), "seed": draw(gen.seeds),
            "offset": draw(st.sampled_from([0.0, 0.0, 0.02, 0.1, 0.3, 0.6, 2.0])), "drift": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0, 4.0])),
            "ar": draw(st.sampled_from([0.0, 0.3, 0.9])), "scale": draw(st.sampled_from([1.0, 1e-5, 300.0])), "loc": draw(st.sampled_from([0.0, 50.0])),
            "w": draw(st.sampled_from([None, None, "real"])), "lp": draw(st.booleans()),
        })
    return out


@st.composite
def one_bad(draw):
    """Many chains that agree, but for at most one of them."""
    n = draw(st.integers(2, 14))
    bad = draw(st.integers(-1, n - 1))
    return [{"m": draw(st.integers(2, 5)), "n": 300, "k": draw(st.integers(1, 5)), "seed": draw(gen.seeds), "offset": 2.0 if i == bad else 0.0,
             "drift": 4.0 if i == bad else 0.0, "ar": 0.0, "scale": 1.0, "loc": 0.0, "w": None, "lp": False} for i in range(n)]


def walk_frame(c) -> pd.DataFrame:
    rng = np.random.RandomState(c["seed"])
    m, n, k = c["m"], c["n"], c["k"]
    x = np.empty((m, n, k))
    e = rng.normal(size=(m, n, k))
    x[:, 0] = e[:, 0]
    for t in range(1, n):
        x[:, t] = c["ar"] * x[:, t - 1] + np.sqrt(1 - c["ar"] ** 2) * e[:, t]
    x += c["offset"] * rng.normal(size=(m, 1, k))
    x += c["drift"] * np.linspace(0, 1, n)[None, :, None]
    x[0, n // 10:, 0] += c.get("jump", 0.0)  # one walker wanders off in one parameter after the start
    df = pd.DataFrame(c["loc"] + c["scale"] * x.reshape(m * n, k), columns=[f"p{i}" for i in range(k)])
    if c["w"]:
        df["weight"] = rng.uniform(0.5, 2, m * n)
    if c["lp"]:
        df["log_posterior"] = rng.normal(size=m * n)
    return df


def build_walks(cs):
    from chainconsumer import Chain, ChainConsumer

    cc, info = ChainConsumer(), {}
    for i, c in enumerate(cs):
        df = walk_frame(c)
        name = f"chain {i}"
        cc.add_chain(Chain(samples=df, name=name, walkers=c["m"]))
        info[name] = (df[[f"p{j}" for j in range(c["k"])]].to_numpy().reshape(c["m"], c["n"], c["k"]), c)
    return cc, info


def ask(cc, info, how, rng):
    names = list(info)
    if how == "none":
        return {}, names
    if how == "name":
        nm = names[rng.randint(len(names))]
        return {"chains": nm}, [nm]
    if how == "chain":
        nm = names[rng.randint(len(names))]
        return {"chains": cc.get_chain(nm)}, [nm]
    sel = [names[i] for i in rng.permutation(len(names))[: 1 + rng.randint(len(names))]]
    return {"chains": [cc.get_chain(s) if rng.rand() < 0.5 else s for s in sel]}, sel


def verdicts(ctx, res, want, what):
    """want: name -> True/False/None (too close to call)"""
    with ctx.reading(what):
        ctx.eq(set(res.results), set(want), f"{what}: chains reported")
        for k, v in want.items():
            if v is not None:
                ctx.eq(bool(res.results[k]), v, f"{what}: verdict for {k}")
        ctx.eq(bool(res.passed), all(bool(v) for v in res.results.values()), f"{what}: overall verdict")
        ctx.eq(bool(res), bool(res.passed), f"{what}: truth value")


P = prop(
    "D01",
    "ensembles of two to eight walkers with random lengths, offsets between walkers, autocorrelation, units, one to three chains, random "
    "thresholds. Non-trivial: a verdict is decided by the definition.",
    ["the documentation gives R from V = (n-1)/n W + B/n, the code follows PyMC and adds B/(nm): verdicts between the two are not judged"],
)


@facet(P, "gelman_rubin", lambda: st.fixed_dictionaries({
    "cs": st.one_of(walks(min_walkers=2), walks(min_walkers=2), walks(min_walkers=2, max_chains=14), one_bad()), "thr": st.sampled_from([None, 0.05, 0.01, 0.1, 0.3, 0.002]), "how": st.sampled_from(["none", "name", "chain", "list"]), "seed": gen.seeds}), quick=400)
def gelman_rubin(c, ctx):
    cc, info = build_walks(c["cs"])
    kw, names = ask(cc, info, c["how"], np.random.RandomState(c["seed"]))
    thr = 0.05 if c["thr"] is None else c["thr"]
    if c["thr"] is not None:
        kw["threshold"] = c["thr"]
    res = cc.diagnostic.gelman_rubin(**kw)
    want = {}
    for nm in names:
        x, cfg = info[nm]
        m, n, k = x.shape
        mu = x.mean(axis=1)
        b = n / (m - 1) * ((mu - mu.mean(axis=0)) ** 2).sum(axis=0)
        w = x.var(axis=1, ddof=1).mean(axis=0)
        v = (n - 1) / n * w + b / n
        rs = np.stack([np.sqrt(v / w), np.sqrt((v + b / (n * m)) / w)])
        pas = np.abs(rs - 1) < thr
        near = (np.abs(np.abs(rs - 1) - thr) < 1e-6).any()
        both = pas.all(axis=1)
        want[nm] = None if near or both[0] != both[1] else bool(both[0])
        if want[nm] is not None:
            ctx.hit()
        ctx.label({None: "undecided", True: "passed", False: "failed"}[want[nm]])
    verdicts(ctx, res, want, "Gelman-Rubin")


@facet(P, "single_walker", lambda: st.fixed_dictionaries({"cs": walks(max_chains=1)}), quick=20)
def single_walker(c, ctx):
    c["cs"][0]["m"] = 1
    cc, info = build_walks(c["cs"])
    ctx.rejects(lambda: cc.diagnostic.gelman_rubin(), "Gelman-Rubin with a single walker")


P = prop(
    "D02",
    "ensembles with random lengths, drifts, autocorrelation and units, random fractions and thresholds; z scores from spectral densities "
    "at frequency zero of an AR(2) fit, then a normality test. Non-trivial: a verdict is decided by the definition.",
    ["at least eight scores, as the normality test requires"],
)


def ar2_spectrum(x):
    """Spectral density at zero of an AR(2) process fitted by Yule-Walker."""
    x = x - x.mean()
    n = len(x)
    r = [(x * x).sum() / n] + [(x[:-k] * x[k:]).sum() / (n - k) for k in (1, 2)]
    det = r[0] ** 2 - r[1] ** 2
    b1 = (r[0] * r[1] - r[1] * r[2]) / det
    b2 = (r[0] * r[2] - r[1] ** 2) / det
    s2 = r[0] - b1 * r[1] - b2 * r[2]
    return (s2 if s2 > 0 else np.nan) / (1 - b1 - b2) ** 2


@facet(P, "geweke", lambda: st.fixed_dictionaries({
    "cs": st.one_of(walks(), walks(), walks(max_chains=12), one_bad()), "thr": st.sampled_from([None, 0.05, 0.3, 0.7, 1e-4, 1e-5, 1e-6, 1e-9]), "how": st.sampled_from(["none", "name", "chain", "list"]), "seed": gen.seeds,
    "first": st.sampled_from([None, 0.1, 0.25, 0.4, 0.6]), "last": st.sampled_from([None, 0.5, 0.2, 0.35, 0.8, 1.0]), "jump": st.sampled_from([0.0] * 4 + [30.0, 300.0]),
}), quick=350)
def geweke(c, ctx):
    from scipy.stats import normaltest

    for x in c["cs"]:
        x["n"] = max(x["n"], 100)
        x["jump"] = c["jump"]
        while x["m"] * x["k"] < 9:
            x["m" if x["m"] > 1 else "k"] += 1
    cc, info = build_walks(c["cs"])
    kw, names = ask(cc, info, c["how"], np.random.RandomState(c["seed"]))
    thr = 0.05 if c["thr"] is None else c["thr"]
    first, last = c["first"] or 0.1, c["last"] or 0.5
    for key, val in (("threshold", c["thr"]), ("first", c["first"]), ("last", c["last"])):
        if val is not None:
            kw[key] = val
    res = cc.diagnostic.geweke(**kw)
    want = {}
    for nm in names:
        x, cfg = info[nm]
        m, n, k = x.shape
        a, b = int(math.floor(first * n)), int(math.floor((1 - last) * n))
        zs = []
        for i in range(m):
            for j in range(k):
                s, e = x[i, :a, j], x[i, b:, j]
                zs.append((s.mean() - e.mean()) / np.sqrt(ar2_spectrum(s) / len(s) + ar2_spectrum(e) / len(e)))
        pv = normaltest(zs).pvalue
        # a chain whose fit has no valid innovation variance is not judged
        want[nm] = None if not np.isfinite(zs).all() or abs(pv - thr) < 1e-6 * max(thr, pv) else bool(pv > thr)
        if want[nm] is not None:
            ctx.hit()
        ctx.label({None: "undecided", True: "passed", False: "failed"}[want[nm]])
    verdicts(ctx, res, want, "Geweke")


# ------------------------------------------------------------------------------------------------ K01
P = prop(
    "K01",
    "hex strings, RGB(A) arrays and lists, every name and alias, colour maps and scale factors. Non-trivial: the colour is given by value "
    "rather than by name, or scaled.",
)


def hexes():
    return st.integers(0, 0xFFFFFF).map(lambda v: f"#{v:06x}")


def is_colour(ctx, v, what):
    ctx.check(isinstance(v, str) and re.fullmatch(r"#[0-9a-fA-F]{6}([0-9a-fA-F]{2})?", v), lambda: f"{what}: {v!r} is not a hex colour")


def rgb(h):
    return [int(h[i:i + 2], 16) for i in (1, 3, 5)]


PUBLIC_NAMES = ["rose", "pink", "fuchsia", "purple", "violet", "indigo", "blue", "sky", "cyan", "teal", "emerald", "green", "lime", "yellow",
                "amber", "orange", "red", "warmGray", "trueGray", "gray", "coolGray", "blueGray"]
PUBLIC_ALIASES = ["b", "r", "g", "k", "f", "m", "c", "o", "y", "a", "p", "e", "lg", "lb", "black", "white"]
HUES = {"red": 0, "green": 1, "blue": 2, "r": 0, "g": 1, "b": 2}


@facet(P, "format", lambda: st.one_of(
    st.fixed_dictionaries({"kind": st.just("hex"), "v": hexes()}),
    st.fixed_dictionaries({"kind": st.sampled_from(["list", "array"]), "v": st.lists(st.integers(0, 255), min_size=3, max_size=4)}),
    st.fixed_dictionaries({"kind": st.just("name"), "v": st.sampled_from(PUBLIC_NAMES + PUBLIC_ALIASES)}),
    st.fixed_dictionaries({"kind": st.just("bad"), "v": st.text("abcdefghijklmnopqrstuvwxyz", min_size=1, max_size=8)}),
), quick=600)
def fmt(c, ctx):
    from chainconsumer import Chain
    from chainconsumer.color_finder import colors

    df = pd.DataFrame({"x": np.arange(5.0)})
    v = c["v"]
    if c["kind"] == "bad":
        if v in PUBLIC_NAMES + PUBLIC_ALIASES:
            raise Excluded("a known name")
        ctx.rejects(lambda: colors.format(v), f"colour {v!r}")
        ctx.rejects(lambda: Chain(samples=df, name="c", color=v), f"chain colour {v!r}")
        return
    want = None
    if c["kind"] == "hex":
        want = v
        ctx.hit()
    elif c["kind"] in ("list", "array"):
        want = "#%02x%02x%02x" % tuple(v[:3])
        v = [x / 255 for x in v]
        v = np.array(v) if c["kind"] == "array" else v
        ctx.hit()
    got = colors.format(v)
    is_colour(ctx, got, f"colour {c['v']!r}")
    if want:
        ctx.eq(got.lower(), want, f"colour {c['v']!r}")
    else:
        r = rgb(got)
        if c["v"] in HUES:
            ctx.eq(int(np.argmax(r)), HUES[c["v"]], f"dominant channel of {c['v']!r} ({got})")
        if c["v"] in ("k", "black"):
            ctx.check(max(r) < 64, lambda: f"{c['v']!r} is {got}")
        if c["v"] in ("white", "f"):
            ctx.check(min(r) > 200, lambda: f"{c['v']!r} is {got}")
    ctx.eq(Chain(samples=df, name="c", color=v).color, got, f"chain colour {c['v']!r}")
    ctx.eq(colors.get_formatted([v, v]), [got, got], "list of colours")
    ctx.eq(colors.format(got), got, "formatting twice")
    ctx.label(c["kind"])


@facet(P, "scale", lambda: st.fixed_dictionaries({"v": st.one_of(hexes(), st.sampled_from(PUBLIC_NAMES)), "f": st.one_of(st.floats(0, 3), st.floats(0, 40)).map(lambda x: round(x, 4)), "g": st.floats(0, 3).map(lambda x: round(x, 4))}), quick=500)
def scale(c, ctx):
    from chainconsumer.color_finder import colors

    base = rgb(colors.format(c["v"]))
    f, g = sorted((c["f"], c["g"]))
    a, b = colors.scale_colour(c["v"], f), colors.scale_colour(c["v"], g)
    for h, k in ((a, f), (b, g)):
        is_colour(ctx, h, f"{c['v']} scaled by {k}")
        for x, y in zip(rgb(h), base):
            ctx.check(abs(x - min(255, y * k)) <= 1, lambda: f"{c['v']} scaled by {k} is {h}: channel {x} from {y}")
    ctx.check(all(x <= y for x, y in zip(rgb(a), rgb(b))), lambda: f"scaling {c['v']} by {f} is brighter than by {g}")
    if f != 1:
        ctx.hit()


@facet(P, "other codes", lambda: st.fixed_dictionaries({
    "v": st.one_of(st.text("0123456789abcdefABCDEF", min_size=8, max_size=8), st.text("0123456789abcdef", min_size=3, max_size=3), hexes()).map(lambda x: "#" + x.lstrip("#")),
    "f": st.one_of(st.floats(0, 3), st.floats(-3, -0.001)).map(lambda x: round(x, 4))}), quick=200)
def other_codes(c, ctx):
    """Codes with transparency or in short form stay as they are, and scaling any code by anything gives a colour that matplotlib knows."""
    from matplotlib.colors import to_rgba

    from chainconsumer.color_finder import colors

    ctx.eq(colors.format(c["v"]), c["v"], "hex code")
    got = colors.scale_colour(c["v"], c["f"])
    with ctx.reading(f"{c['v']} scaled by {c['f']}"):
        ctx.check(isinstance(got, str) and len(to_rgba(got)) == 4, lambda: f"{c['v']} scaled by {c['f']} is {got!r}")
    if len(c["v"]) != 7 or c["f"] < 0:
        ctx.hit()


@facet(P, "colormap", lambda: st.fixed_dictionaries({"n": st.one_of(st.integers(1, 30), st.integers(1, 300)), "cmap": st.sampled_from(["viridis", "plasma", "inferno", "gray", "jet"]), "s": st.sampled_from([None, 0.3, 1.0])}), quick=80)
def colormap(c, ctx):
    import matplotlib.pyplot as plt

    from chainconsumer.color_finder import colors

    got = colors.get_colormap(c["n"], c["cmap"], **({} if c["s"] is None else {"scale": c["s"]}))
    ctx.eq(len(got), c["n"], "number of colours")
    for h in got:
        is_colour(ctx, h, "colour of a colour map")
    if c["s"] == 1.0:
        want = plt.get_cmap(c["cmap"])(np.linspace(0.05, 0.9, c["n"]))
        for h, w in zip(got, want):
            ctx.check(np.abs(np.array(rgb(h)) - 255 * w[:3]).max() <= 1.01, lambda: f"{h} is not {w[:3]}")
    dark = 0.7 if c["s"] is None else c["s"]
    for h, w in zip(got, plt.get_cmap(c["cmap"])(np.linspace(0.05, 0.9, c["n"]))):
        for x, y in zip(rgb(h), 255 * w[:3]):
            ctx.check(dark * y - 2 <= x <= y + 1.01, lambda: f"{h} is not {w[:3]} darkened by at most {dark}")
    if c["n"] > 5 and c["s"] == 1.0:
        ctx.check(len(set(got)) == c["n"] or c["n"] > 60, "colours of a colour map repeat")
        ctx.hit()


@facet(P, "defaults", lambda: st.fixed_dictionaries({"n": st.integers(1, 120)}), quick=25)
def defaults(c, ctx):
    """Chains without a colour get distinct default colours as far as the palette reaches."""
    from chainconsumer.color_finder import colors

    gen_ = colors.next_colour()
    got = []
    for _ in range(min(c["n"], 88)):
        try:
            got.append(next(gen_))
        except StopIteration:
            break
    for h in got:
        is_colour(ctx, h, "default colour")
    ctx.check(len(got) >= min(c["n"], 11) and len(set(got)) == len(got), "default colours repeat")
    if c["n"] > 11:
        ctx.hit()
