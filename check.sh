#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh --replay FILE
# Runs one model-checking driver against the hpelm sources in /repo (pure Python: "building" is importing afresh).
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export PYTHONPYCACHEPREFIX="$work/pyc"      # never read stale bytecode of /repo
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 BLOSC_NTHREADS=1
export MALLOC_PERTURB_=190                  # fresh memory holds 0x41 bytes: uninitialised results are visible
export TMPDIR="$work" MC_WORK="$work" PYTHONPATH="${MC_REPO:-/repo}:$here"
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
$PY -W ignore -m mc.run "$@"
exit $?
