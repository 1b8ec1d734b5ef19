#!/bin/bash
# run.sh <PROPERTY> quick|thorough        decide one property by generated-input search
# run.sh --replay FILE                    re-run one minimal failing case, without Hypothesis
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
# Fresh heap memory is a large, recognisable number instead of zero, so that reading
# uninitialised arrays shows up in the results.
export MALLOC_PERTURB_=165
SCRATCH="$(mktemp -d)" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export HOME="$SCRATCH" PYTHONPYCACHEPREFIX="$SCRATCH/pyc" VERIF_SCRATCH="$SCRATCH"
export MPLCONFIGDIR="$SCRATCH/mpl"
# One compiled copy of the sources per run; nothing is read from or written to /repo's own caches.
unset PYTHONDONTWRITEBYTECODE
cd "$SCRATCH" || exit 2
/opt/venv/bin/python -W ignore "$HERE/harness/run.py" "$@"
rc=$?
exit $rc
