#!/bin/bash
# nothing to compile: checks that the interpreter and the repository can be imported
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg $PY -W ignore -c "import sys; sys.path.insert(0,'/repo'); import numpy,scipy,mpmath,matplotlib,wiz; print('setup ok',wiz.__file__)"
