"""Tries planted bugs: python3 tools/trybug.py [--no-tests] [--checks ID,ID|all] [seeded/ID ...]

Each bug is applied to a scratch copy of /repo that is mounted over /repo in a private user and mount namespace, together
with scratch directories over /verif/evidence and /verif/replays, so nothing outside the namespace changes.
"""

import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(copy, ev, cmd, timeout=1500):
    script = f"mount --bind {copy} /repo; mount --bind {ev} {ROOT}/evidence; mount --bind {ev} {ROOT}/replays; {cmd}"
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(e.cmd, 124, "timeout", "timeout")


def one(bug, tests, checks, base, seed):
    d = os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="vb.", dir="/tmp")
    out = {"bug": bug, "property": meta["property"]}
    try:
        copy, ev, demo = f"{tmp}/repo", f"{tmp}/ev", f"{tmp}/demo"
        os.mkdir(ev)
        sh(f"cp -a /repo {copy}")
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(os.path.join(demo, f))
        r = inside(copy, ev, f"cd /repo && timeout 300 bash {demo}/demo.sh")
        out["demo_clean"] = r.returncode
        if r.returncode:
            out["demo_clean_out"] = (r.stdout + r.stderr)[-800:]
        r = sh(f"git -C {copy} apply {d}/patch.diff")
        if r.returncode:
            out["apply"] = r.stderr
            return out
        r = inside(copy, ev, f"cd /repo && timeout 300 bash {demo}/demo.sh")
        out["demo_bug"] = r.returncode
        out["demo_bug_out"] = (r.stdout + r.stderr).strip()[-200:]
        if tests:
            r = inside(copy, ev, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {tmp}/t.json")
            try:
                t = json.load(open(f"{tmp}/t.json"))
                passed = set(t["passed"])
                out["tests_broken"] = sorted(base - passed)[:5]
            except Exception as e:
                out["tests_broken"] = [f"no result {e} {r.stdout[-300:]} {r.stderr[-300:]}"]
        out["checks"] = {}
        for c in checks or [meta["property"]]:
            r = inside(copy, ev, f"VERIF_SEED={seed} VERIF_TIER=quick {ROOT}/run.sh {c} quick")
            line = [x for x in r.stdout.splitlines() if x.startswith("facet")]
            out["checks"][c] = (r.returncode, (line or [(r.stdout + r.stderr)[-300:]])[0][:220])
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("bugs", nargs="*")
    a = ap.parse_args()
    bugs = [os.path.basename(b.rstrip("/")) for b in a.bugs] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    checks = None
    if a.checks:
        checks = [c["property"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]] if a.checks == "all" else a.checks.split(",")
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b["passed"] if "passed" in b else b["stable"])
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for o in ex.map(lambda x: one(x, not a.no_tests, checks, base, a.seed), bugs):
            ok = o.get("demo_clean") == 0 and o.get("demo_bug") and not o.get("tests_broken")
            mine = o.get("checks", {}).get(o["property"], (None, ""))[0]
            print(("valid  " if ok else "INVALID"), ("caught" if mine == 1 else f"MISSED({mine})"), json.dumps(o), flush=True)


if __name__ == "__main__":
    main()
