"""Entry point: python -m vsc <property>."""

import os
import sys
import tempfile


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from . import checks

    try:
        status = checks.run(prop, tier, seed)
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        status = 2
    sys.stdout.flush()
    sys.exit(status)


main()
