#!/bin/bash
# Nothing to compile: checks that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; sys.path.insert(0, "."); from psrpmon import core; core.setup_paths(); import pypsrp.client, requests, cryptography, spnego; print("ok", pypsrp.__file__)'
