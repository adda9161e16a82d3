#!/bin/bash
# check.sh <property> [seconds]: builds from /repo's working tree, then searches.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${VERIF_TIER:-quick}
[ "$2" = thorough ] && tier=thorough
secs=30
[ "$tier" = thorough ] && secs=600
[ -n "$UMFSIM_TIME" ] && secs=$UMFSIM_TIME
mkdir -p evidence
python3 build.py || { echo "ERROR: build failed"; exit 2; }
exec .build/umfsim check --property "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --time "$secs" --workers "$(nproc)" --out evidence --known known_findings.txt
