#!/bin/bash
# Nothing to build: the checks import ModSSC from /repo's working tree. Verify that the interpreter can.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH="${MODSSC_TREE:-/repo}/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import modssc, numpy, torch, sklearn"
