#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay file]
# Runs one check against /repo's current working tree (pure Python: nothing is compiled or cached).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/mplconfig}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$PWD:${MC_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -m mc "$@"
