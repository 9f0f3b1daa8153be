#!/bin/bash
# run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/veriftools/pyvenv/bin/python -W ignore check.py "$1" --tier "${2:-quick}" "${@:3}"
