#!/bin/bash
# usage: run.sh ID quick|thorough        run the check of one property
#        run.sh ID replay FILE           re-execute one saved case, without Hypothesis
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: the check itself failed
cd "$(dirname "$0")" || exit 3
VERIF=$(pwd)
ID=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}; FILE=${3:-}
[ -n "$FILE" ] && FILE=$(realpath "$FILE")
DEPS=$(python3 tools/deps.py) || exit 3
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/qsverif.XXXXXX") || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/cwd" "$SCRATCH/numba"
unset QS_CACHE_TDHO
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONNOUSERSITE=1
export NUMBA_CACHE_DIR="$SCRATCH/numba" TMPDIR="$SCRATCH" HOME="$SCRATCH"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=8
export VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONPATH="/repo:$VERIF/checks:$DEPS"
cd "$SCRATCH/cwd" || exit 3
/opt/venv/bin/python "$VERIF/checks/runner.py" "$VERIF" "$ID" "$TIER" "$FILE"
