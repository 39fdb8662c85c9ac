#!/bin/bash
# check.sh ID [options of check.py]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 MPLBACKEND=Agg
exec /opt/venv/bin/python check.py "$@"
