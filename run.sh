#!/usr/bin/env bash
# ./run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/openms-verif.XXXXXX")" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_CACHE_DIR="$scratch/numba" VERIF_SCRATCH="$scratch" PYSCF_TMPDIR="$scratch" TMPDIR="$scratch"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"
cd "$scratch" || exit 3
/opt/venv/bin/python -B -W ignore "$here/harness/vp.py" "$@"
exit $?
