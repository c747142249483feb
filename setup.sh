#!/bin/bash
# Nothing to build: the framework is pure Python. Verifies that the interpreter and /repo can be imported.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/mplconfig}"
mkdir -p evidence replays
PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -W ignore -c "import mentpy, mc.core; print('ready', mentpy.__file__)"
