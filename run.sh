#!/bin/bash
# run.sh <PROPERTY> <quick|thorough> [options]   -- run one check against /repo's working tree
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONUTF8=0 LC_ALL=C.UTF-8
unset PYTHONPATH
cd "$(dirname "$(realpath "$0")")" || exit 3
PY=/opt/venv/bin/python
exec "$PY" -B -W ignore check.py "$@"
