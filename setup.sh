#!/bin/bash
# Nothing to build: the simulator and bead are Python.  Checks that they load and that a run repeats exactly.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 VERIF_SEED=1
a=$(PYTHONHASHSEED=1 /opt/venv/bin/python -m sim.runner digests C02 0 2) || exit 2
b=$(PYTHONHASHSEED=1 /opt/venv/bin/python -m sim.runner digests C02 0 2) || exit 2
[ "$a" = "$b" ] || { echo "not deterministic: $a / $b"; exit 2; }
echo "ready"
