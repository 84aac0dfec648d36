#!/bin/bash
# Compares the simulated kernel, SQLite locking and time zones with the real ones, and the digests of runs in different processes.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 VERIF_SEED=1
/opt/venv/bin/python -m sim.selftest "${1:-300}" || exit 1
for p in C02 C06 C16; do
  a=$(PYTHONHASHSEED=7 /opt/venv/bin/python -m sim.runner digests $p 0 8)
  b=$(for k in 0 1 2 3 4 5 6 7; do PYTHONHASHSEED=7 /opt/venv/bin/python -m sim.runner digests $p $k $((k + 1)) & wait; done)
  [ "$a" = "$b" ] || { echo "$p: runs depend on the process they are in"; exit 1; }
done
echo "selftest passed"
