#!/bin/bash
# check.sh PROPERTY [--replay FILE]: runs the monitors of one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export LANG=C.UTF-8 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONOPTIMIZE PYTHONUTF8 PYTHONIOENCODING
exec /opt/venv/bin/python ffmon/main.py "$@"
