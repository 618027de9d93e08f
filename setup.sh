#!/bin/bash
# Nothing has to be built: check that the simulator and the code under test can be imported
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:${DST_REPO:-/repo}"
exec /opt/venv/bin/python -c "from dst import seams; seams.preload(); print('ready')"
