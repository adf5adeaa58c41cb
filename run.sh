#!/bin/bash
# run.sh <property> <tier>: one registered check
unset PYTHONPATH
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python "$here/check.py" "$1" --tier "${2:-quick}"
