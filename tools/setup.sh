#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly.
# This only confirms that the interpreter and the code under test load.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cd "$t" && PYTHONPATH="$OLDPWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$t" \
    /opt/venv/bin/python -c 'from mon import core; core.load_gimpy(); print("ok")'
