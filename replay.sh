#!/bin/bash
# usage: replay.sh REPLAY-FILE [-v]   exit 1 and VIOLATION when it reproduces
f=$(realpath "$1"); shift
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sim.runner replay "$f" "$@"
