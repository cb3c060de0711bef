#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies, builds, passes
# the tests; the demo passes without and fails with it. With -c also runs the property's check on it.
check=; [ "$1" = -c ] && { check=1; shift; }
. /opt/vp/env.sh
W=/tmp/plant; rm -rf /tmp/plant; cp -a /repo $W || exit 1
cd $W
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- . 
  bash $d/demo.sh >/tmp/plant.log 2>&1 || { echo "$id: DEMO FAILS ON BASE"; tail -20 /tmp/plant.log; continue; }
  git apply $d/patch.diff || { echo "$id: NO APPLY"; continue; }
  go build ./... || { echo "$id: NO BUILD"; continue; }
  if bash $d/demo.sh >/tmp/plant.log 2>&1; then echo "$id: DEMO PASSES WITH BUG"; continue; fi
  if go test -vet=off ./... >/tmp/plant.log 2>&1; then echo "$id: ok"; else echo "$id: TESTS FAIL"; grep -E "^(---|FAIL|.*\[FAIL\])" /tmp/plant.log | head; fi
  if [ -n "$check" ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); REPO=$W timeout 900 bash /verif/check.sh $p quick 2>&1 | grep -E "VIOLATION|violations=" | head -3; fi
done
cd /; rm -rf /tmp/plant
