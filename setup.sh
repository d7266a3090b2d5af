#!/bin/bash
# Nothing to build (the code under test is Python): check that the interpreter and the code load.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import mon.target, mon.roofs, mon.engine; print('setup ok')"
