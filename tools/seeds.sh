#!/bin/sh
# tools/seeds.sh "P01 P02" "1 2 3" [tier]
for p in $1; do for s in $2; do VERIF_SEED=$s VERIF_TIER=${3:-quick} ./check $p | grep -v KNOWN | sed "s/^/seed $s: /" | tail -4; done; done
