#!/bin/bash
# usage: run.sh <property> <quick|thorough> | run.sh <property> --replay <file>
# Runs one check against /repo's current working tree (no build products needed).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 MPLBACKEND=Agg
export GGGEARS_SRC="${GGGEARS_SRC:-/repo/src}"
PY=/opt/venv/bin/python
exec "$PY" -B "$here/mc/main.py" "$@"
