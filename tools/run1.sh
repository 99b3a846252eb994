#!/bin/bash
# developer helper: run1.sh c08 [seed] [tier]
cd "$(dirname "$0")/.."; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH=${REPO:-/repo}:$PWD VERIF_SEED=${2:-1} VERIF_TIER=${3:-quick} VERIF_DEBUG=1
exec /opt/venv/bin/python -W ignore checks/$1.py
