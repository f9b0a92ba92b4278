#!/bin/bash
# run.sh <property id>: one check, from /verif, against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
unset CMAP_PATH PYTHONPATH
PY=/opt/venv/bin/python
[ "$1" = replay ] && exec $PY -m mc replay "$2"
exec $PY -m mc check "$@"
