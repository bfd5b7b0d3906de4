#!/bin/bash
# check.sh <property> [--replay FILE]   (tier: $VERIF_TIER, seed: $VERIF_SEED)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$here/harness/check.py" "$@"
