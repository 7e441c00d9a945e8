#!/bin/bash
# check.sh <property> | check.sh --replay <file> | check.sh --digest <property> [args]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${DST_HASHSEED:-0} OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8
export PYTHONPATH=$PWD
PY=/opt/venv/bin/python
LIB=$(env -u PYTHONPATH python3 dst/build.py simfs) || exit 3
case "$1" in
  --replay) shift; set -- replay "$@";;
  --digest) shift; set -- digest "$@";;
  *) set -- check "$@";;
esac
LD_PRELOAD="$LIB" exec "$PY" dst/runner.py "$@"
