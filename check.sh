#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [-v]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif_mpl_$$"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python -W ignore -m engine.runner "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
