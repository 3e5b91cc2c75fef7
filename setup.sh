#!/bin/bash
# Pre-builds the extensions of the current tree (a cache only: every check builds what it lacks).
cd "$(dirname "$0")/lib" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
/opt/venv/bin/python -m pv.build plain asan
