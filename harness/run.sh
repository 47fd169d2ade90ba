#!/bin/bash
# usage: harness/run.sh C01 [args]   (run in /verif)
here=$(cd "$(dirname "$0")/.." && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
p=$1; shift
exec /opt/venv/bin/python "$here/checks/$p.py" "$@"
