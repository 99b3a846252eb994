#!/bin/bash
# usage: run.sh C01 [quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 9
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/repo:/verif VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
id=$(echo "$1" | tr 'A-Z' 'a-z')
exec /opt/venv/bin/python "checks/$id.py"
