"""Make hypothesis importable in the interpreter that has the code under test, offline."""

import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NEED = ("hypothesis", "sortedcontainers", "attrs")


def _unpack() -> None:
    tmp = tempfile.mkdtemp(prefix=".deps.", dir=HERE)
    try:
        for name in NEED:
            tag = "cp%d%d" % sys.version_info[:2]
            found = sorted(f for f in glob.glob(os.path.join(WHEELS, f"{name}-*.whl")) if tag in f or "py3-none-any" in f)
            if found:
                with zipfile.ZipFile(found[-1]) as z:
                    z.extractall(tmp)
            else:
                mods = {"attrs": ["attr", "attrs"], "hypothesis": ["hypothesis", "_hypothesis_globals.py"]}.get(name, [name])
                for m in mods:
                    src = os.path.join(VENV, m)
                    if os.path.isdir(src):
                        shutil.copytree(src, os.path.join(tmp, m))
                    elif os.path.exists(src):
                        shutil.copy(src, tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            pass  # another process was faster
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp)


def _try() -> bool:
    try:
        import hypothesis  # noqa: F401

        return True
    except ImportError:
        return False


if not _try():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        _unpack()
    sys.path.append(DEPS)
    if not _try():
        raise ImportError("hypothesis is not available")
