#!/bin/bash
# usage: run.sh <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:/opt/pypath" PYTHONNOUSERSITE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m harness "$@"
