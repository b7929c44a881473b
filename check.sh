#!/bin/bash
# usage: check.sh <property id>      (VERIF_SEED, VERIF_TIER from the environment)
#        check.sh replay <replay.json>
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export EIGEN3_PATH=/usr/include/eigen3 PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
export VM_REPO="${VM_REPO:-/repo}"
export PYTHONPATH="$HERE:$VM_REPO"
export PYTHONWARNINGS=ignore
cd "$HERE" || exit 2
exec /opt/venv/bin/python -m vm.main "$@"
