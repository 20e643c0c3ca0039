#!/bin/bash
# bash run.sh <property id> [--replay FILE | --thorough | --only=TEST]
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$VERIF_REPO:$PWD"
id=$1; shift
exec /opt/venv/bin/python -W ignore "checks/$id.py" "$@"
