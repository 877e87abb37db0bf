#!/bin/bash
# bash run_check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--only TEXT]
# Runs one check against the working tree of GIRTH_ROOT (default /repo).
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export GIRTH_ROOT=${GIRTH_ROOT:-/repo}
# a private, empty bytecode cache: bytecode lying about in the tree is not used
PYC=$(mktemp -d /tmp/girth-mc-pyc.XXXXXX) || exit 2
trap 'rm -rf "$PYC"' EXIT
export PYTHONPYCACHEPREFIX=$PYC
export PYTHONPATH="$HERE/mc/site:$HERE"
/opt/venv/bin/python -W ignore "$HERE/mc/run.py" "$@"
