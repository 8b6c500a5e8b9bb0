#!/bin/bash
# run.sh CHECK [options]: runs one check on /repo's working tree (see main.py).
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export C_INCLUDE_PATH=/opt/py27/usr/include:/opt/py27/usr/include/python2.7
export LA_REPO=${LA_REPO:-/repo}
PY=/opt/py27/usr/bin/python2.7
exec "$PY" -s -B "$here/main.py" "$@"
