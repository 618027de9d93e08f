#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} HDF5_USE_FILE_LOCKING=BEST_EFFORT
export PYTHONPATH="$PWD:${DST_REPO:-/repo}"
export VERIF_TIER=${2:-quick} VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -m dst check "$1" --tier "$VERIF_TIER"
