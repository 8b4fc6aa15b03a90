#!/bin/bash
# run.sh PROPERTY TIER : one check, from /verif, against /repo's working tree
cd "$(dirname "$0")" || exit 2
export HOME=/root MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python check.py "$1" --tier "${2:-quick}" "${@:3}"
