#!/bin/bash
# Nothing has to be built: see whether the checks can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
export PYTHONPATH=${DSV_REPO:-/repo}/src:$PWD
exec /opt/venv/bin/python -c "
import sys, disc_solver, mc.core, mc.util
print('ready', disc_solver.__file__)"
