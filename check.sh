#!/bin/bash
# Usage: check.sh <property id> [--tier quick|thorough] [--seed N] [--facet SUBSTR] [--scale X] [--replay FILE]
# Runs one property check against /repo's working tree (or VERIF_REPO when soaking a copy).
# Everything that is compiled or cached (byte code, numba, config) goes to a fresh scratch
# directory, so the run always sees the current source and leaves nothing behind.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX")" || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/config" "$SCRATCH/cache" "$SCRATCH/tmp" "$SCRATCH/cwd"
export HOME="${HOME:-/root}" LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 JAX_PLATFORMS=cpu
export PYTHONPYCACHEPREFIX="$SCRATCH/pycache" NUMBA_CACHE_DIR="$SCRATCH/numba"
export XDG_CONFIG_HOME="$SCRATCH/config" XDG_CACHE_HOME="$SCRATCH/cache" TMPDIR="$SCRATCH/tmp"
export PYTHONWARNINGS=ignore VERIF_ROOT="$HERE" VERIF_REPO="$REPO"
export PYTHONPATH="$REPO:$HERE:$HERE/vendor"
unset NUMBA_DISABLE_JIT
cd "$SCRATCH/cwd" || exit 3
/opt/venv/bin/python -u -m harness.run "$@"
RC=$?
exit $RC
