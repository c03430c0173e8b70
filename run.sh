#!/bin/bash
# Runs one check: ./run.sh <property id> [--thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
unset REQUESTS_CA_BUNDLE CURL_CA_BUNDLE HTTP_PROXY HTTPS_PROXY http_proxy https_proxy ALL_PROXY all_proxy NO_PROXY no_proxy
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; sys.path.insert(0, "."); from psrpmon.core import main; sys.exit(main(sys.argv))' "$@"
