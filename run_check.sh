#!/bin/bash
# run_check.sh ID [--tier quick|thorough] [--replay FILE]: run one check
# against the working tree in /repo (or $DSV_REPO).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
repo=${DSV_REPO:-/repo}
scratch=$(mktemp -d /tmp/dsv.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export DSV_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
export PYTHONPATH=$repo/src:$here
mkdir -p "$MPLCONFIGDIR"
cd "$here" || exit 2
mod=$(echo "$id" | tr 'A-Z' 'a-z')
/opt/venv/bin/python -m "checks.$mod" "$@"
