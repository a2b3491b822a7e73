"""Entry point: python -m vf.main PROPERTY [quick|thorough] [--replay FILE] [--seed N] [--scale X] [--jobs N] [--facet F]"""

from __future__ import annotations

import argparse
import importlib
import os
import pkgutil
import shutil
import sys
import tempfile


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--facet")
    a = ap.parse_args()

    scratch = tempfile.mkdtemp(prefix="vf.")
    os.chmod(scratch, 0o755)
    mpl = os.path.join(scratch, "mpl")
    os.mkdir(mpl)
    src = "/opt/vp/mplconfig"
    if os.path.isdir(src):
        for name in os.listdir(src):
            if name.startswith("fontlist"):
                shutil.copy(os.path.join(src, name), mpl)
    os.environ.update(VF_SCRATCH=scratch, MPLCONFIGDIR=mpl, MPLBACKEND="Agg", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    me = os.getpid()
    try:
        import logging
        import warnings

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        import vf.boot  # noqa: F401
        from vf import core
        import vf.props as props

        try:
            import chainconsumer
        except Exception:
            import traceback

            traceback.print_exc()
            print("the code under test cannot be imported", file=sys.stderr)
            return 2
        where = os.path.realpath(chainconsumer.__file__)
        if not where.startswith(core.SRC):
            print(f"the code under test is {where}, not {core.SRC}", file=sys.stderr)
            return 2
        for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
            importlib.import_module(f"vf.props.{m}")
        if a.property == "list":
            for k, v in sorted(core.PROPS.items()):
                print(k, [f.name for f in v.facets])
            return 0
        p = core.PROPS[a.property]
        if a.replay:
            return core.replay(p, a.replay)
        return core.run(a.property, a.tier, a.seed, jobs=a.jobs, scale=a.scale, only=a.facet)
    finally:
        if os.getpid() == me:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
