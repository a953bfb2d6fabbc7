#!/bin/bash
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1
PY=/opt/vp/venv/bin/python
[ -x "$PY" ] || PY=python3
timeout 120 "$PY" "$(dirname "$0")/demo.py"
