#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property against /repo.
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/svx_mpl} PYTHONHASHSEED=0
exec /opt/venv/bin/python run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
