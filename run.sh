#!/bin/bash
# usage: run.sh <PROPERTY-ID> [args]; tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export GLOO_SOCKET_IFNAME=lo CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:${VF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -m vf.main "$@"
