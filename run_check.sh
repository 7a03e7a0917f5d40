#!/bin/bash
# usage: run_check.sh <property id> [--replay FILE]
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$HERE/lib:$HERE/shim:$REPO"
export HDF5_USE_FILE_LOCKING=FALSE TZ=UTC
export VERIF_HOME="$HERE" VERIF_REPO="$REPO"
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m vf "$@"
