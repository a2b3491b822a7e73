"""For every repair in known-findings.txt: take it back in a scratch copy of /repo and see whether its check reports it again."""

import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def one(prop, commit):
    with tempfile.TemporaryDirectory(prefix="uf.", dir="/tmp") as tmp:
        copy, ev = f"{tmp}/repo", f"{tmp}/ev"
        shutil.copytree("/repo", copy, symlinks=True)
        Path(ev).mkdir()
        r = subprocess.run(["git", "-C", copy, "-c", "user.name=x", "-c", "user.email=x", "revert", "-n", "-X", "theirs", commit], capture_output=True, text=True)
        if r.returncode:
            return "conflict", r.stderr[-200:]
        script = f"mount --bind {copy} /repo; mount --bind {ev} {ROOT}/evidence; mount --bind {ev} {ROOT}/replays; cd {ROOT}; VF_SHRINK=0 ./run.sh {prop} quick --jobs 3"
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True, timeout=1500)
        return ("caught" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode}"), (r.stdout + r.stderr)[-300:]


def main():
    todo = re.findall(r"^fixed: property=(\w+) (\w+) (.*)$", (ROOT / "known-findings.txt").read_text(), re.M)
    if sys.argv[1:]:
        todo = [t for t in todo if t[1] in sys.argv[1:]]
    with ThreadPoolExecutor(2) as ex:
        for (prop, commit, what), (res, out) in zip(todo, ex.map(lambda t: one(t[0], t[1]), todo)):
            print(f"{res:10s} {prop} {commit} {what[:80]}", "" if res == "caught" else out, flush=True)


main()
