#!/bin/bash
# Nothing needs to be built: checks that the interpreter and the tree under test can be imported.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p build evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. "$PY" -W ignore -c 'from dst import libload; libload.load(); print("ready")'
