#!/bin/bash
# nothing to build: the checks import /repo directly; make sure the solver is there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
[ -f /opt/vp/support/env.sh ] && . /opt/vp/support/env.sh
PYTHONPATH=/repo:$PWD /opt/venv/bin/python -c "import symx.engine, z3, numpy, scipy, autograd; print('z3', z3.get_version_string())"
