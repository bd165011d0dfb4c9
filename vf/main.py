from __future__ import annotations

import argparse
import importlib
import sys


def main() -> int:
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    a = p.parse_args()
    from . import env  # noqa: F401
    import ampform_dpd

    assert ampform_dpd.__file__.startswith("/repo/src/"), ampform_dpd.__file__
    from .report import run_check
    from .checks import REGISTRY

    mod, fn = REGISTRY[a.pid]
    m = importlib.import_module(f"vf.checks.{mod}")
    return run_check(a.pid, a.tier, getattr(m, fn))


if __name__ == "__main__":
    sys.exit(main())
