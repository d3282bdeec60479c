#!/bin/bash
# catch.sh [IDS...]: apply each planted bug to /repo, run the check of its property, undo.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
    s=$(date +%s)
    out=$(MC_MAX=5 ./check.sh "${CHECK:-$p}" quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$b: rc $rc $(( $(date +%s) - s )) s $(grep -ac "^VIOLATION property=${CHECK:-$p}" <<<"$out") $(grep -aA1 -m1 '^VIOLATION' <<<"$out" | tr '\n' ' ' | cut -c1-160)"
done
