#!/bin/bash
# usage: check.sh <property id> [--replay file]
cd /verif || exit 2
export PYTHONPATH=${VC_REPO:-/repo}:/verif PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m vc "$@"
