#!/bin/bash
# usage: check.sh <property> <tier>
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m vf.run "$1" --tier "${2:-quick}"
