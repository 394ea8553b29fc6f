#!/bin/bash
# check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python run.py "$1" "${2:-${VERIF_TIER:-quick}}"
