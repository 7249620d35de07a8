#!/bin/bash
# run.sh <PROPERTY-ID> <quick|thorough>      exhaustive check of one property on /repo's working tree
# run.sh replay <file>                       re-run one recorded counterexample
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=${VERIF_REPO:-/repo}:$here PYTHONWARNINGS=ignore
cd "$here" || exit 1
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -m mc.main "$@"
