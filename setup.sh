#!/bin/bash
# Nothing has to be built: the checks are Python programs that run the working tree of /repo with /opt/venv.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c 'import numpy, scipy, sympy, matplotlib, dill, pathos, mc.ref, mc.specs; print("setup ok")'
