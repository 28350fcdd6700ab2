#!/bin/bash
# usage: check.sh <property id> [quick|thorough|replay FILE]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/verif-pyc
exec /opt/venv/bin/python -B /verif/harness/check.py "$@"
