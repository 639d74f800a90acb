#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--sub NAME] | run.sh --selftest
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}/src"
export VERIF_REPO="${VERIF_REPO:-/repo}"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore "$here/check.py" "$@"
