#!/bin/bash
# usage: check.sh ID [quick|thorough]   |   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
if [ "$1" = replay ]; then
  exec /opt/venv-pypy/bin/python -m mc.replay "$2"
fi
exec /opt/venv-pypy/bin/python -m mc.run "$1" "${2:-${VERIF_TIER:-quick}}"
