#!/bin/bash
# check.sh PROPERTY [args]: run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${SIM_HASHSEED:-0} MPLBACKEND=Agg
export NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export NUMBA_CACHE_DIR=/nonexistent MARX_QUIET=1
export DASK_TEMPORARY_DIRECTORY=/tmp
exec /opt/venv/bin/python -B -m sim.runner "$@"
