#!/bin/bash
# run.sh <PROPERTY-ID> [--tier quick|thorough] : run one monitor against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export TF_ENABLE_ONEDNN_OPTS=0 GLOG_minloglevel=3
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OPENBLAS_NUM_THREADS=${OPENBLAS_NUM_THREADS:-2}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
if [ "$2" = "--tier" ]; then export VERIF_TIER=$3; fi
export PYTHONPATH=/repo:$PWD/lib
exec /opt/venv/bin/python -W ignore -m vp.main "$1"
