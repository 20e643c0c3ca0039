#!/bin/bash
# Nothing to build: verify that the interpreter, do_mpc and Hypothesis import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
/opt/venv/bin/python -W ignore -c "import lib.vf, hypothesis, casadi, do_mpc; print('ok', hypothesis.__version__, casadi.__version__)"
