#!/bin/bash
# seed.sh ID: the uncommitted change in /repo becomes planted bug ID; checks tests and demo with and without it.
id=$1 prop=$2 d=/verif/seeded/$1
[ -f "$d/demo.rs" ] || { echo "no $d/demo.rs"; exit 1; }
git -C /repo diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
ok=1
(cd /repo && bash /opt/vp/build.sh >/tmp/seed.log 2>&1) || { echo "does not build"; ok=0; }
(cd /repo && bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed-t.log 2>&1)
tail -1 /tmp/seed-t.log
python3 - <<'P' || ok=0
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.json'))['passed'])
m=b-p
print("tests missing:",sorted(m)[:5]) if m else None
sys.exit(1 if m else 0)
P
(cd /repo && bash "$d/demo.sh" >/tmp/seed-d.log 2>&1); with=$?
git -C /repo checkout -q -- .
(cd /repo && bash /opt/vp/build.sh >/tmp/seed.log 2>&1 && bash "$d/demo.sh" >/tmp/seed-d0.log 2>&1); without=$?
echo "$id: ok=$ok demo with=$with without=$without"; tail -2 /tmp/seed-d.log
