#!/bin/bash
# Usage: run.sh <PROPERTY> [--replay FILE]
# Decides one property against the code in /repo's current working tree.
# VERIF_SEED and VERIF_TIER (quick|thorough) are read from the environment.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH="${PATH:-/usr/local/bin:/usr/bin:/bin}" PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=/repo
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/harness/main.py" "$@"
