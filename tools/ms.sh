#!/bin/bash
# run one check for several seeds: tools/ms.sh C21 1 2 3 ...
p=$1; shift
for s in "$@"; do VERIF_SEED=$s python3 /verif/check.py $p 2>&1 | cut -c1-700 | tail -${LINES_MAX:-6}; done
