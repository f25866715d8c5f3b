#!/bin/sh
# ./run.sh C01 [--tier quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo (or of $VERIF_REPO, when testing the checks).
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONPYCACHEPREFIX=/nonexistent/pyc \
    exec /opt/venv/bin/python -P mc/run.py "$@"
