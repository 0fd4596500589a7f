#!/bin/bash
# tools/sweep.sh "C11 C12" "1 2 3" [tier]: several seeds, short output
cd "$(dirname "$0")/.."
for c in $1; do for s in $2; do /opt/venv/bin/python run.py $c --tier ${3:-quick} --seed $s 2>&1 | cut -c1-420 | tail -${TAIL:-4}; done; done
