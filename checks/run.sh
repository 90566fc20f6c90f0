#!/bin/bash
# usage: checks/run.sh C01 [--thorough] [-v]
cd "$(dirname "$0")/.." || exit 2
ulimit -s unlimited 2>/dev/null || ulimit -s 1000000 2>/dev/null || ulimit -s "$(ulimit -Hs)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m checks.main "$@"
