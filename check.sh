#!/bin/bash
# bash check.sh <property> [--thorough]: decides one property against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python harness/check.py "$@"
