#!/bin/bash
# nothing to build: pure Python, run from source; check that it starts
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c "from dst import harness; harness.boot(); print('ready')"
