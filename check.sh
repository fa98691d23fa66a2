#!/bin/bash
# usage: bash check.sh <property>   decides one property against /repo's working tree (VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m dst.check "$1"
