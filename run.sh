#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs one property check against /repo's working tree.
DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/kmcpy-pbt-hypothesis
export VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -W ignore "$DIR/pbt/main.py" "$@"
