#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay file] [-v]
# Imports the library from /repo's working tree (VERIF_REPO overrides it for experiments only).
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env/env.sh 2>/dev/null
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore check.py "$@"
