#!/bin/bash
# ./run.sh <ID> [quick|thorough]: run one check from /verif (see DESIGN.md)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
PYTHONPATH="$PWD" exec /opt/venv/bin/python -B -m vmon.main "$1" "$2"
