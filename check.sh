#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 2
P="$1"; T="${2:-${VERIF_TIER:-quick}}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=
/opt/venv/bin/python -m symex.run "$P" --tier "$T" "$@"
