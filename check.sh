#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough] [extra args]   -- run one property's check against /repo
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/etc/matplotlib
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore run.py "$@"
