#!/bin/bash
# run.sh P01 [quick|thorough]   or   run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mon.engine "$@"
