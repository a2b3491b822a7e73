#!/bin/bash
# usage: ./run.sh PROPERTY [quick|thorough] [--replay FILE] ...
# Runs one registered property check against the working tree of /repo.
cd "$(dirname "$(realpath "$0")")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="$PWD"
unset PYTHONSTARTUP PYTHONHOME MATPLOTLIBRC
exec /opt/venv/bin/python -X faulthandler -m vf.main "$@"
