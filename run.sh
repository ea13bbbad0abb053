#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--case NAME]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/support/env.sh ] && . /opt/vp/support/env.sh
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore::SyntaxWarning
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY check.py "$@"
