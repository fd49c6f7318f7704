#!/bin/bash
# Runs one property's simulation:  ./check.sh C01 [--tier thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export PYTHONWARNINGS=ignore::SyntaxWarning OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
scratch=$(mktemp -d "${TMPDIR:-/tmp}/noa-dst.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" NOA_SCRATCH="$scratch"
export NOA_REPO="${NOA_REPO:-/repo}"
export PYTHONPATH="$NOA_REPO:$PWD/standins:$PWD"
/opt/venv/bin/python -m dst "$@"
exit $?
