#!/bin/bash
# usage: check.sh C01 [quick|thorough]   -- decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
export PYTHONPATH="$PWD"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec timeout -k 5 "$([ "$VERIF_TIER" = thorough ] && echo 7200 || echo 840)" /opt/venv/bin/python -m symx.run "$1" "${@:3}"
