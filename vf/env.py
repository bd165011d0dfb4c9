"""Process set-up: makes z3 importable next to the application's own packages."""
from __future__ import annotations

import sys
import warnings

TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if TOOL_SITE not in sys.path:
    sys.path.append(TOOL_SITE)  # at the end: the application's packages win
import z3  # noqa: E402

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

REPO_SRC = "/repo/src"
__all__ = ["REPO_SRC", "z3"]
