#!/bin/bash
# Usage: check.sh ID [options of sim.check]; decides one property for the tree in /repo.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1
export PYPY_GC_NURSERY=1m
unset PYTHONPATH
exec "${PY:-/opt/venv/bin/python}" --jit off -m sim.check "$@"
