"""Run the job again that found a violation: python -m vsc.replay <file>."""

import importlib
import json
import os
import shutil
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from . import backends  # noqa: E402


def main():
    with open(sys.argv[1]) as fh:
        viol = json.load(fh)
    module, name, spec = viol["job"]
    backends.SCRATCH = backends.scratch_root()
    try:
        out = getattr(importlib.import_module(f"vsc.{module}"), name)(tuple(spec))
    finally:
        shutil.rmtree(backends.SCRATCH, ignore_errors=True)
    for v in out["viol"]:
        print(v["key"])
        for line in v.get("shown", [])[-25:]:
            print("   ", line)
    print(f"{len(out['viol'])} violations")
    return 1 if out["viol"] else 0


sys.exit(main())
