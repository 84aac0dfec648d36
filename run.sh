#!/bin/bash
# usage: run.sh PROPERTY   (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sim.runner check "$@"
