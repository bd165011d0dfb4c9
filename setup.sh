#!/bin/bash
# Nothing to compile: the checks are Python and run from the committed files.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
import vf.env
P
