#!/bin/bash
# scratch.sh DIR: a copy of /repo and of the simulator under DIR, built and run without touching either original.
set -eu
d=$1
mkdir -p "$d/verif" "$d/repo"
(cd /repo && git archive HEAD) | tar -x -C "$d/repo"
[ -d "$d/repo/.git" ] || (cd "$d/repo" && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x)
for f in sim run.sh known-findings.txt; do cp -r "/verif/$f" "$d/verif/"; done
grep -rlE '"?/(verif|repo)' "$d/verif" --include=*.rs --include=*.toml --include=*.sh | while read -r f; do
    sed -i "s#/verif/#$d/verif/#g; s#\"/repo\"#\"$d/repo\"#; s#cd /repo#cd $d/repo#" "$f"
done
