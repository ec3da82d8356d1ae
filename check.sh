#!/bin/bash
# check.sh <ID> quick|thorough     run one property's check
# check.sh replay FILE             re-execute a replay file
# check.sh setup                   sanity-check the framework
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_HOME="$here"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
# hash order is one of the seeded choices
export PYTHONHASHSEED="${VERIF_HASHSEED:-$(( (VERIF_SEED * 2654435761 + 12345) % 4294967291 ))}"
scratch="$(mktemp -d /tmp/verif.XXXXXXXX)"
export VERIF_SCRATCH="$scratch" NUMBA_CACHE_DIR="$scratch/numba"
PY=/opt/venv/bin/python
cd "$here"
"$PY" -W ignore -m sim.main "$@"
rc=$?
case "$scratch" in /tmp/verif.????????) rm -rf -- "$scratch";; esac
exit $rc
