#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   |   run.sh --replay <replay file>
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/run.py" "$@"
