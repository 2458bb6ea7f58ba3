#!/bin/bash
# check.sh PROPERTY [args]: run one property's check against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
exec /opt/venv/bin/python -B check.py "$@"
