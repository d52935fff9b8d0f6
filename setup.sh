#!/bin/bash
# nothing to build: pure Python; check that the interpreter and the package are there
here=$(cd "$(dirname "$0")" && pwd); cd "$here"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "from mon import core; core.quiet_plastex(); print('ok')"
