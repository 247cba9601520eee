#!/bin/bash
# check.sh <property-id>            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>            run one saved case again
# check.sh setup                    see that everything the checks need is there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
exec python3-vt -m pbt "$@"
