#!/bin/bash
# usage: run.sh <property id> [quick|thorough] ; runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD" CUDA_VISIBLE_DEVICES= TORCHDYNAMO_VERBOSE=0
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore -m mc.core "$1"
