#!/bin/bash
# usage: bash replay.sh <replay file> [--log]   exit 1 when the violation happens again
f=$(realpath "$1"); shift
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m dst.replay "$f" "$@"
