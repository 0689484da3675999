#!/bin/bash
# nothing to build: the checks are Python and import histbook from /repo; verify that the interpreter and the library load
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
mkdir -p evidence replays
exec /opt/venv-pypy/bin/python -c "import mc.ref; print('ok')"
