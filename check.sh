#!/bin/bash
# check.sh ID [args]: runs one check (see vf/run.py)
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m vf.run "$@"
