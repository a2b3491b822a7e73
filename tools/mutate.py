"""Mutation sampling: python3 tools/mutate.py --files analysis.py,plotter.py --count 100 --jobs 4 --out OUT.jsonl [--seed N]

Draws syntactic mutants of the library, applies each to a scratch copy of /repo mounted over /repo in a private namespace,
runs the repository's tests and, on the mutants that they miss, the checks that concern the place until one reports.
The survivors of both are what deserves reading: equivalent code, something no property claims, or a gap.
"""

import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/chainconsumer"
CHECKS = {
    "analysis.py": "S01 S02 S03 S04 S05 S10 S08 S09 S06 S07 T01 T02 T03 S11 R03 V14 V04",
    "chain.py": "C01 C02 C03 C04 C05 C06 C07 C08 R02 V07 S09 S05 V06 R03",
    "chainconsumer.py": "R01 R02 V06 R03 V05",
    "color_finder.py": "K01 R02 V13 V06",
    "comparisons.py": "M01 M02 T04 R03",
    "diagnostic.py": "D01 D02",
    "helpers.py": "S02 S09 S10 V02 V03 V04 S05 T02 S07",
    "kde.py": "S09 V03 S07",
    "truth.py": "V05 V15",
    "plotter.py": "V01 V02 V04 V05 V08 V09 V10 V11 V12 V13 V14 V15 R02",
    "plotting/contours.py": "V03 V01 V06 V07 V15 R02",
    "plotting/truth.py": "V05 V15",
    "plotting/config.py": "V01 V08 V12 V13 V14 V02 V03",
    "plotting/watermark.py": "V12",
    "statistics.py": "S02 S03",
}
# within the plotter, the checks by method
PLOTTER = {
    "plot_walks": "V09 V12", "_plot_walk": "V09", "_plot_walk_truth": "V09", "plot_distributions": "V10 V12 V04", "plot_summary": "V11 V12",
    "_get_size_of_texts": "V11", "set_rc_params": "V12", "restore_rc_params": "V12", "_get_custom_extents": "V02 V01", "_get_parameter_extents": "V02",
    "_get_triangle_figure": "V01 V08 V02 V05 V12 V13", "_sanitise_chains": "V01 R02 V10 V09 V11 T02", "_plot_bars": "V04 V14 R02 V10",
    "plot": "V01 V13 V08 V12 V06 V14 V05 V03 V02", "get_artists_from_chains": "V13", "_save_fig": "V12", "get_size": "V12 V01",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["+"]}


def mutants(text):
    """[(start offset, end offset, replacement, description)]"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, what):
        if raw[a:b].decode() != new:
            out.append((a, b, new, what))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            skip.add(n.body[0].value)
        for field in ("annotation", "returns"):
            x = getattr(n, field, None)
            if x is not None:
                skip.update(ast.walk(x))
        if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("warning", "info", "error", "debug"):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Raise, ast.Assert)):
            m = n.exc if isinstance(n, ast.Raise) else n.msg
            if m is not None:
                skip.update(ast.walk(m))
        if isinstance(n, ast.keyword) and n.arg == "description":
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        a, b = span(n)
        src = raw[a:b].decode()
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            lo, hi = span(n.left)[1], span(n.comparators[0])[0]
            for op in CMP.get(type(n.ops[0]), []):
                add(lo, hi, f" {op} ", "comparison")
        elif isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.BitOr) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            lo, hi = span(n.left)[1], span(n.right)[0]
            mid = raw[lo:hi].decode()
            for op in BIN.get(type(n.op), []):
                for cur in ("**", "//", "+", "-", "*", "/", "%"):
                    if cur in mid:
                        add(lo, hi, mid.replace(cur, op, 1), "arithmetic")
                        break
        elif isinstance(n, ast.BoolOp):
            lo, hi = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[lo:hi].decode()
            add(lo, hi, mid.replace("and", "or", 1) if isinstance(n.op, ast.And) else mid.replace("or", "and", 1), "boolean")
            add(a, b, raw[span(n.values[0])[0]:span(n.values[0])[1]].decode(), "boolean dropped")
        elif isinstance(n, ast.UnaryOp):
            x0, x1 = span(n.operand)
            add(a, b, raw[x0:x1].decode(), "unary dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(a, b, str(not v), "flag")
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                add(a, b, repr(v + 1), "number")
                if v:
                    add(a, b, repr(v * 2 if isinstance(v, int) else v * 0.5), "number")
            elif isinstance(v, str) and v and not src.startswith(("f", "rf")) and raw[max(0, a - 1):a] != b"{":
                add(a, b, '"XX"', "text")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            t0, t1 = span(n.test)
            add(t0, t1, f"not ({raw[t0:t1].decode()})", "condition negated")
            add(t0, t1, f"({raw[t0:t1].decode()}) or True", "condition always")
            add(t0, t1, f"({raw[t0:t1].decode()}) and False", "condition never")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
            add(a, b, "pass", "statement dropped")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(a, b, "pass", "assignment dropped")
        elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
            for k in n.keywords:
                if k.arg:
                    x0, x1 = span(k)
                    # drop the keyword and one comma
                    e = x1
                    while e < len(raw) and raw[e:e + 1] in b" \n":
                        e += 1
                    if raw[e:e + 1] == b",":
                        add(x0, e + 1, "", "keyword dropped")
        elif isinstance(n, ast.Continue):
            add(a, b, "break", "continue")
        elif isinstance(n, ast.Break):
            add(a, b, "pass", "break")
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None and n.slice.upper is None and n.slice.step is None:
                add(a, b, raw[span(n.value)[0]:span(n.value)[1]].decode(), "slice dropped")
    good = []
    for m in out:
        new = (raw[:m[0]] + m[2].encode() + raw[m[1]:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append((*m, text.count("\n", 0, len(raw[:m[0]].decode())) + 1))
    return raw, good


def within(text, line):
    """The name of the innermost function around a line."""
    best = ("", 10**9)
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno and n.end_lineno - n.lineno < best[1]:
            best = (n.name, n.end_lineno - n.lineno)
    return best[0]


def inside(copy, cmd, timeout):
    ev = os.path.dirname(copy) + "/ev"
    os.makedirs(ev, exist_ok=True)
    mounts = f"mount --bind {copy} /repo; mount --bind {ev} {ROOT}/evidence; mount --bind {ev} {ROOT}/replays"
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", f"{mounts}; {cmd}"], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(e.cmd, 124, "timeout", "timeout")


def one(job):
    f, (a, b, new, what, line), seed, deselect, checks, base, scale = job
    path = f"{base}/{SRC}/{f}"
    raw = open(path, "rb").read()
    fn = within(raw.decode(), line)
    if not checks:
        checks = (PLOTTER.get(fn) if f == "plotter.py" else None) or CHECKS.get(f, "R03")
        checks = checks.split()
    tmp = tempfile.mkdtemp(prefix="mu.", dir="/tmp")
    res = {"file": f, "line": line, "in": fn, "what": what, "old": raw[a:b].decode()[:160], "new": new[:160], "text": raw.decode().splitlines()[line - 1].strip()}
    try:
        copy = f"{tmp}/repo"
        subprocess.run(f"cp -a {base} {copy}", shell=True, check=True)
        with open(f"{copy}/{SRC}/{f}", "wb") as fh:
            fh.write(raw[:a] + new.encode() + raw[b:])
        r = inside(copy, "cd /repo && MPLBACKEND=Agg /opt/venv/bin/python -c 'import chainconsumer, chainconsumer.plotting'", 120)
        if r.returncode:
            return {**res, "by": "import"}
        # a mutant that the tests notice says nothing about the checks
        env = "export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 JAX_PLATFORMS=cpu"
        r = inside(copy, f"cd /repo; {env}; /opt/venv/bin/python -m pytest tests -x -q -p no:cacheprovider --timeout=300 {deselect}", 600)
        if r.returncode:
            return {**res, "by": "tests"}
        for c in checks:
            r = inside(copy, f"VF_SHRINK=0 VERIF_SEED={seed} {ROOT}/run.sh {c} quick --jobs 1 --scale {scale}", 900)
            if r.returncode == 1:
                msg = [x for x in r.stdout.splitlines() if x.startswith("facet")]
                return {**res, "by": c, "msg": (msg or [""])[0][:160]}
            if r.returncode:
                res.setdefault("odd", []).append(f"{c} rc {r.returncode} {(r.stdout + r.stderr)[-200:]}")
        return {**res, "by": None}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default=",".join(CHECKS))
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--checks")
    ap.add_argument("--pytest", default="", help="more arguments of pytest, to leave out tests that fail anyway")
    ap.add_argument("--scale", type=float, default=0.4)
    ap.add_argument("--out", required=True)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    jobs = []
    base = tempfile.mkdtemp(prefix="mu.", dir="/tmp") + "/repo"
    subprocess.run(f"cp -a /repo {base}", shell=True, check=True)
    for f in a.files.split(","):
        raw, ms = mutants(open(f"{base}/{SRC}/{f}").read())
        print(f, len(ms), flush=True)
        jobs += [(f, m, 1, a.pytest, a.checks.split(",") if a.checks else None, base, a.scale) for m in ms if not (f == "color_finder.py" and m[3] == "text")]
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[: a.count]
    if a.list:
        return
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for fut in cf.as_completed([ex.submit(one, j) for j in jobs]):
            r = fut.result()
            out.write(json.dumps(r) + "\n")
            out.flush()
    shutil.rmtree(os.path.dirname(base), ignore_errors=True)


if __name__ == "__main__":
    main()
