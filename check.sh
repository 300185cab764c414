#!/bin/bash
# bash check.sh <property> [quick|thorough] [--replay file]
here=$(cd "$(dirname "$0")" && pwd)
pid=$1; shift
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifrun.XXXXXX") || exit 2
# C33 changes the locale, which UTF-8 mode would hide
utf8=1; [ "$pid" = C33 ] && utf8=0
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/tmp" "$scratch/cwd"
cd "$scratch/cwd" || exit 2
env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore \
    PYTHONUTF8=$utf8 LC_ALL=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" \
    OMP_NUM_THREADS=1 TMPDIR="$scratch/tmp" PYTHONPATH="$here" \
    /opt/venv/bin/python -m mon "$pid" "$@"
rc=$?
exit $rc
