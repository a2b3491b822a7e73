"""Engine: runs the facets of a property over generated cases, shrinks failures, writes evidence and replays.

A facet is (strategy producing a JSON-able case, function deciding that case).  Every random choice is made by
Hypothesis from a seed that is a function of VERIF_SEED, the property, the facet and the shard, so a run is a pure
function of the code under test and VERIF_SEED.  A failing case is shrunk by Hypothesis and saved as a replay file,
which is a plain input of the deciding function and bypasses Hypothesis.
"""

from __future__ import annotations

import contextlib
import dataclasses
import hashlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from collections.abc import Callable
from typing import Any

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.realpath("/repo/src/chainconsumer") + os.sep
CASE_CPU_LIMIT = 150  # seconds of CPU for one case; cases normally need well under two
MAX_MEM = 8 << 30


class Violation(Exception):
    """The property does not hold on this case."""


class Excluded(Exception):
    """The case lies outside the domain of the property (counted, never a failure)."""


class HarnessError(Exception):
    pass


class _Stop(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self) -> None:
        self.labels: list[str] = []
        self.nontrivial = False
        self.scratch = ""

    def label(self, *names: str) -> None:
        self.labels.extend(names)

    def hit(self) -> None:
        """Marks the case non-trivial by the property's rule."""
        self.nontrivial = True

    def check(self, cond: Any, msg: str | Callable[[], str] = "") -> None:
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got: Any, want: Any, what: str) -> None:
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def close(self, got: Any, want: Any, what: str, rtol: float = 1e-9, atol: float = 0.0) -> None:
        import numpy as np

        with self.reading(what):
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape} instead of {w.shape}")
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            i = int(np.argmin(ok.ravel()))
            raise Violation(f"{what}: got {g.ravel()[i]!r}, expected {w.ravel()[i]!r} (rtol={rtol}, atol={atol}, index {i})")

    @contextlib.contextmanager
    def reading(self, what: str):
        """Interpreting an output of the code under test: an output that cannot be read is a violation."""
        try:
            yield
        except (Violation, Excluded):
            raise
        except Exception as e:
            raise Violation(f"{what}: output cannot be interpreted ({type(e).__name__}: {e})") from e

    def rejects(self, fn: Callable[[], Any], what: str, excs: tuple = (Exception,)) -> None:
        try:
            fn()
        except excs:
            return
        raise Violation(f"{what}: was accepted instead of being rejected")


@dataclasses.dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any, Ctx], None]
    quick: int
    thorough: int
    enumerate: list | None = None  # a finite list of cases that are always run, before the generated ones


@dataclasses.dataclass
class Prop:
    id: str
    rule: str
    facets: list[Facet]
    assumptions: list[str]


PROPS: dict[str, Prop] = {}

# How many times over the number of cases given with a facet fits into about twenty seconds on eight cores
QUICK = {
    "C01": 8, "C02": 8, "C03": 8, "C04": 8, "C05": 8, "C06": 8, "C07": 8, "C08": 8, "R01": 8, "R02": 2, "S01": 8, "S02": 8, "S03": 7, "S04": 5, "S05": 2,
    "S06": 8, "S07": 7, "S08": 8, "S09": 8, "S10": 8, "S11": 6, "T01": 8, "T02": 8, "T03": 8, "T04": 8, "M01": 8, "M02": 8, "D01": 8, "D02": 8, "K01": 8,
    "V01": 2, "V02": 4, "V04": 3, "V05": 6, "V06": 8, "V07": 8, "V08": 4, "V09": 3, "V10": 8, "V11": 4, "V12": 2, "V13": 4, "V14": 5, "V15": 2,
    "V16": 3, "V17": 2,
}


def prop(pid: str, rule: str, assumptions: list[str] | None = None) -> Prop:
    p = Prop(pid, rule, [], assumptions or [])
    assert pid not in PROPS, pid
    PROPS[pid] = p
    return p


def facet(p: Prop, name: str, strategy: Callable[[], Any], quick: int, thorough: int | None = None, always=None):
    """Decorator registering a deciding function."""

    def deco(fn):
        p.facets.append(Facet(name, strategy, fn, quick * QUICK.get(p.id, 1), max(thorough or quick * 40, 15 * quick * QUICK.get(p.id, 1)), always))
        return fn

    return deco


def derive(*parts: Any) -> int:
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def _dumps(case: Any) -> str:
    return json.dumps(case, sort_keys=True)


def _in_library(e: BaseException) -> bool:
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def _on_cpu(_sig, _frm):
    raise CaseTimeout


def decide(f: Facet, case: Any) -> tuple[str, str, Ctx]:
    """Returns (verdict, message, ctx); verdict is ok, excluded, violation or error."""
    import matplotlib

    ctx = Ctx()
    ctx.scratch = tempfile.mkdtemp(prefix="case.", dir=os.environ["VF_SCRATCH"])
    cwd = os.getcwd()
    case = json.loads(_dumps(case))  # what a replay would see, and nobody can modify the original
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        f.run(case, ctx)
        verdict = ("ok", "")
    except Excluded as e:
        verdict = ("excluded", str(e))
    except Violation as e:
        verdict = ("violation", str(e))
    except CaseTimeout:
        verdict = ("violation", f"no result after {CASE_CPU_LIMIT} s of CPU time")
    except Exception as e:
        if _in_library(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            verdict = ("violation", f"unexpected {type(e).__name__}: {e} [{os.path.basename(last.filename)}:{last.lineno}]")
        else:
            verdict = ("error", traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        if matplotlib.rcParams["text.usetex"] or matplotlib.rcParams["font.family"] != ["sans-serif"]:
            matplotlib.rcParams["text.usetex"] = False
            matplotlib.rcParams["font.family"] = ["sans-serif"]
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return verdict[0], verdict[1], ctx


def _shard(p: Prop, f: Facet, shard: int, n: int, cases: list, seed: int, budget: float, shrink: float, out: str) -> None:
    """Runs in a forked child; writes its result to `out`."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t_end = time.monotonic() + budget
    res: dict[str, Any] = {
        "facet": f.name, "evaluations": 0, "excluded": Counter(), "labels": Counter(), "nontrivial": [], "samples": [],
        "failure": None, "error": None, "budget_hit": False,
    }
    seen: set[str] = set()
    state = {"fail_at": None}

    def one(case: Any, generated: bool) -> None:
        verdict, msg, ctx = decide(f, case)
        shrinking = state["fail_at"] is not None
        if not shrinking:
            res["evaluations"] += 1
            for lab in ctx.labels:
                res["labels"][lab] += 1
            if verdict == "excluded":
                res["excluded"][msg] += 1
            if verdict == "ok" and ctx.nontrivial:
                h = hashlib.sha256(_dumps(case).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 2:
                        res["samples"].append(case)
        if verdict == "error":
            res["error"] = f"case {_dumps(case)[:2000]}\n{msg}"
            raise _Stop
        if verdict == "violation":
            size = len(_dumps(case))
            cur = res["failure"]
            if cur is None or size <= cur["size"]:
                res["failure"] = {"case": case, "message": msg, "size": size, "facet": f.name, "shard_seed": seed}
            if not shrinking:
                state["fail_at"] = time.monotonic()
            raise Violation(msg)

    def test(case: Any) -> None:
        now = time.monotonic()
        if state["fail_at"] is not None:
            if now > state["fail_at"] + shrink:
                raise _Stop
        elif now > t_end:
            res["budget_hit"] = True
            raise _Stop
        one(case, True)

    try:
        for c in cases:
            if time.monotonic() > t_end:
                res["budget_hit"] = True
                break
            one(c, False)
        if n > 0:
            wrapped = given(f.strategy())(test)
            wrapped = settings(
                max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )(wrapped)
            wrapped = hypothesis.seed(seed)(wrapped)
            with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                wrapped()
    except (_Stop, Violation):
        pass
    except BaseException:
        if res["failure"] is None:
            res["error"] = traceback.format_exc()
    res["nontrivial"] = sorted(seen)
    res["labels"], res["excluded"] = dict(res["labels"]), dict(res["excluded"])
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.rename(tmp, out)


def _fork(fn: Callable[[], None]) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (MAX_MEM, MAX_MEM))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    return pid


def _kill(pid: int) -> None:
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)
    with contextlib.suppress(ProcessLookupError):
        os.kill(pid, signal.SIGKILL)


def load_known(pid: str) -> list[dict]:
    """Entries 'finding: property=<id> key=<key> case=<json> -- <what fails>' of known-findings.txt."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                head, what = line[len("finding: "):].rstrip("\n").split(" -- ", 1)
                meta, case = head.split(" case=", 1)
                kv = dict(x.split("=", 1) for x in meta.split())
                if kv["property"] == pid:
                    out.append({"facet": kv["facet"], "case": json.loads(case), "what": what})
    return out


def replay(p: Prop, path: str) -> int:
    rec = json.load(open(path))
    f = next(x for x in p.facets if x.name == rec["facet"])
    verdict, msg, _ = decide(f, rec["case"])
    print(f"replay of {path}: {verdict} {msg}")
    return {"ok": 0, "excluded": 0, "violation": 1, "error": 2}[verdict]


def run(pid: str, tier: str, seed: int, *, jobs: int | None = None, scale: float = 1.0, only: str | None = None) -> int:
    t0 = time.monotonic()
    p = PROPS[pid]
    jobs = jobs or min(8, max(2, os.cpu_count() or 2))
    scratch = os.environ["VF_SCRATCH"]
    facets = [f for f in p.facets if only is None or f.name == only]
    soft = float(os.environ.get("VF_SOFT", 240 if tier == "quick" else 660))
    hard = 780 if tier == "quick" else 860
    shrink = float(os.environ.get("VF_SHRINK", 20 if tier == "quick" else 60))

    # Known findings first: they are inputs that fail, listed one by one.
    known = load_known(pid)
    for k in known:
        f = next(x for x in p.facets if x.name == k["facet"])
        verdict, msg, _ = decide(f, k["case"])
        if verdict == "violation":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif verdict == "error":
            print(msg, file=sys.stderr)
            return 2
    known_cases = {_dumps(k["case"]) for k in known}

    tasks: list[tuple[Facet, int, int, list]] = []
    for f in facets:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        if f.quick == 0:
            n = 0
        shards = max(1, min(jobs, n)) if n else 1
        # enough shards to balance, few enough to keep the per-shard overhead small
        for s in range(shards):
            m = n // shards + (1 if s < n % shards else 0)
            tasks.append((f, s, m, (f.enumerate or [])[s::shards]))
    tasks.sort(key=lambda t: t[1])

    running: dict[int, tuple[int, str, Facet]] = {}
    results: list[dict] = []
    errors: list[str] = []
    failed = False
    i = 0
    while (i < len(tasks) and not failed) or running:
        while i < len(tasks) and len(running) < jobs and not failed:
            f, s, m, cases = tasks[i]
            out = os.path.join(scratch, f"shard{i}.json")
            sd = derive(seed, pid, f.name, s)
            left = max(5.0, soft - (time.monotonic() - t0))
            pid_ = _fork(lambda f=f, s=s, m=m, cases=cases, sd=sd, left=left, out=out: _shard(p, f, s, m, cases, sd, left, shrink, out))
            running[pid_] = (i, out, f)
            i += 1
        done = []
        for c in list(running):
            r, status = os.waitpid(c, os.WNOHANG)
            if r:
                done.append((c, status))
        for c, status in done:
            k, out, f = running.pop(c)
            if os.path.exists(out):
                res = json.load(open(out))
                results.append(res)
                if res["failure"] and _dumps(res["failure"]["case"]) not in known_cases:
                    failed = True
                if res["error"]:
                    errors.append(f"[{f.name}] {res['error']}")
            else:
                errors.append(f"[{f.name}] shard {k} ended without a result (status {status})")
        if failed and not done:
            # let the other shards of this run go: one reproduction is enough
            for c in list(running):
                _kill(c)
                os.waitpid(c, 0)
                running.pop(c)
        if time.monotonic() - t0 > hard:
            for c in list(running):
                _kill(c)
                os.waitpid(c, 0)
                running.pop(c)
            if not failed:
                errors.append("hard time limit")
            break
        if not done:
            time.sleep(0.02)

    failures = [r["failure"] for r in results if r["failure"] and _dumps(r["failure"]["case"]) not in known_cases]
    labels: dict[str, dict[str, int]] = {}
    excluded: Counter = Counter()
    per_facet: dict[str, dict[str, int]] = {}
    distinct: set[str] = set()
    samples: list = []
    for r in results:
        lab = labels.setdefault(r["facet"], {})
        for k_, v in r["labels"].items():
            lab[k_] = lab.get(k_, 0) + v
        for k_, v in r["excluded"].items():
            excluded[k_] += v
        pf = per_facet.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": 0})
        pf["evaluations"] += r["evaluations"]
        distinct |= {r["facet"] + h for h in r["nontrivial"]}
        if r["samples"] and sum(1 for s in samples if s["facet"] == r["facet"]) < 2:
            samples.append({"facet": r["facet"], "case": _short(r["samples"][0])})
    for fname, pf in per_facet.items():
        pf["distinct_nontrivial"] = sum(1 for d in distinct if d[:-16] == fname)
    wall = time.monotonic() - t0
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": p.rule,
            "samples": samples,
            "per_facet": per_facet,
            "classes": labels,
            "excluded": dict(excluded),
            "budget_hit": sum(1 for r in results if r["budget_hit"]),
            "known_findings_replayed": len(known),
            "exhaustive": False,
        },
        "assumptions": p.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    os.rename(path + ".tmp", path)

    if failures:
        best = min(failures, key=lambda x: x["size"])
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", f"{pid}-{seed}.json")
        with open(rp, "w") as fh:
            json.dump({"property": pid, **best}, fh, indent=1)
            fh.write("\n")
        print(f"facet {best['facet']}: {best['message'][:2000]}")
        print(f"case: {_dumps(best['case'])[:3000]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e, file=sys.stderr)
        return 2
    c = evidence["coverage"]
    print(f"{pid}: held on {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {wall:.1f} s (seed {seed}, {tier})")
    return 0


def _short(x: Any, depth: int = 0) -> Any:
    """Long lists of numbers are abbreviated in the evidence file only."""
    if isinstance(x, dict):
        return {k: _short(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 12:
            return [_short(v, depth + 1) for v in x[:12]] + [f"... {len(x) - 12} more"]
        return [_short(v, depth + 1) for v in x]
    return x
