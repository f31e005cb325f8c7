#!/bin/sh
# check.sh <property id>: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
id=$1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 RAY_USAGE_STATS_ENABLED=0 PYTHONHASHSEED=0
exec /opt/venv/bin/python harness/$(echo "$id" | tr 'A-Z' 'a-z').py
