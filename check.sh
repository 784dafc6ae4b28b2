#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=${VERIF_SEED:-1}
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -W ignore run.py "$@"
