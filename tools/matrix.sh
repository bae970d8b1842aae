#!/bin/bash
# matrix.sh DIR "BUGS" "CHECKS": which checks catch which planted bugs, in the scratch copy DIR ("own": the bug's own property).
d=$1
for b in $2; do
    git -C "$d/repo" checkout -q -- .
    git -C "$d/repo" apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
    own=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "/verif/seeded/$b/meta.json")
    for c in ${3/own/$own}; do
        out=$(cd "$d/verif" && VERIF_SEED=1 VERIF_TIER=quick ./run.sh check "$c" 2>&1); r=$?
        echo "$b ($own) $c exit=$r $(echo "$out" | grep -E '^minimised' | cut -c1-200)"
    done
done
git -C "$d/repo" checkout -q -- .
