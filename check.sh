#!/bin/bash
# check.sh <property id> <quick|thorough> [config filter]   |  check.sh --replay FILE
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python -m symq.run "$@"
