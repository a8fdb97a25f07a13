#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--only OBLIGATION] [-v] | --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python check.py "$@"
