#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
WORK=$(mktemp -d /tmp/vf.XXXXXX)
trap 'rm -rf "$WORK"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export PYTHONPYCACHEPREFIX="$WORK/pyc"
export COMPWA_CACHE_DIR="$WORK/cache" XDG_CACHE_HOME="$WORK/xdg" JAX_PLATFORMS=cpu VF_WORK="$WORK"
[ -f /repo/src/ampform_dpd/version.py ] || { bash /opt/vp/build.sh >/dev/null 2>&1; }
/opt/venv/bin/python -m vf.main "$1" --tier "${2:-quick}"
