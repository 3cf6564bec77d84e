#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -n "$2" ] && export VERIF_TIER="$2"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python harness/check.py "$1"
