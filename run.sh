#!/bin/bash
# usage: run.sh <property-id> [--replay FILE]     (tier from VERIF_TIER, default quick)
# Checks import ModSSC from the working tree of /repo (or $MODSSC_TREE while developing).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export HF_HUB_OFFLINE=1 HF_DATASETS_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PIP_NO_INDEX=1
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MODSSC_TREE="${MODSSC_TREE:-/repo}"
export PYTHONPATH="$here:$MODSSC_TREE/src:$MODSSC_TREE"
cd "$here" || exit 3
exec /opt/venv/bin/python -m mc.main "$@"
