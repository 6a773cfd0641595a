#!/bin/bash
# usage: run.sh Cxx [quick|thorough]    (run from anywhere; writes /verif/evidence/Cxx.json)
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mplconfig}
[ -n "$2" ] && export VERIF_TIER=$2
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -W ignore lib/main.py "$1"
