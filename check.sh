#!/bin/bash
# One property's check: check.sh <property>. VERIF_SEED and VERIF_TIER come from the environment.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m dst check "$1"
