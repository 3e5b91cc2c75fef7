#!/bin/bash
# run_check.sh <property> quick|thorough       decide a property
# run_check.sh <property> replay <file>        re-run the case of a replay file
# run_check.sh <property> case <seed> <i>      re-run one case (quick tier)
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC MPLBACKEND=Agg
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYWR_SOLVER PYTEST_ADDOPTS
for v in $(env | sed -n 's/^\(PYWR_SOLVER[A-Z_]*\)=.*/\1/p'); do unset "$v"; done
cd "$(dirname "$0")/lib" || exit 2
exec /opt/venv/bin/python -m pv.runner "$@"
