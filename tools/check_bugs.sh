#!/bin/bash
# usage: check_bugs.sh ID...   Applies each planted bug to /repo, runs its property's check (TIER, default quick), undoes it.
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    (cd /verif && timeout 900 ./run.sh $p ${TIER:-quick} >/tmp/cb.log 2>&1); c=$?
    git -C /repo checkout -q -- .
    case $c in 1) r="caught" ;; 0) r="MISSED" ;; *) r="NO ANSWER ($c)" ;; esac
    echo "$id: $r by $p ($(($(date +%s) - s)) s) $(grep -A1 '^VIOLATION' /tmp/cb.log | tail -1 | cut -c1-110)"
done
