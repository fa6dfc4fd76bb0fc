#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/mc/run.py" "$@"
