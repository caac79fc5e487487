#!/bin/bash
# usage: check.sh <PROPERTY> quick|thorough   (or: check.sh <PROPERTY> --replay FILE)
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD${MC_REPO:+:}${MC_REPO:+$MC_REPO/src}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m mc.run "$@"
