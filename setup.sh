#!/bin/bash
# Nothing is compiled: checks that the interpreter, the stand-ins and the harness load.
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="${NOA_REPO:-/repo}:$PWD/standins:$PWD" \
  /opt/venv/bin/python -c "import numpy, scipy, vartools, dynamic_obstacle_avoidance, dst.runner; print('ok')"
