#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough] [options]
cd "$(dirname "$0")" || exit 2
p="$1"; t="${2:-quick}"; shift; [ $# -gt 0 ] && shift
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python sx/run.py "$p" --tier "$t" "$@"
