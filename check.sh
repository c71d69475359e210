#!/bin/bash
# check.sh PID [quick|thorough] [--replay FILE] [--unit NAME]
export LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=
exec /opt/venv-pypy/bin/python -B -W ignore "$(cd "$(dirname "$0")" && pwd)/pbt/main.py" "$@"
