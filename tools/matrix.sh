#!/bin/bash
# usage: matrix.sh [ID...] — run the check of each planted bug's property against it (in /repo, undone afterwards).
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in ${*:-$(ls seeded)}; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    for q in ${CHECKS:-$p}; do
        git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
        t=$SECONDS
        out=$(VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash check.sh "$q" 2>&1); rc=$?
        git -C /repo checkout -- .
        echo "$id $q exit=$rc $((SECONDS-t))s $(grep -c '^VIOLATION' <<<"$out") violation(s) $(grep -m1 '^VIOLATION' <<<"$out")"
    done
done
