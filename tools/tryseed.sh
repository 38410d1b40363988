#!/bin/bash
# tools/tryseed.sh ID…: confirm planted bugs (build, tests, demo, check) and restore the tree
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$FAST" ]; then bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || echo "$id: BUILD FAILED"; bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts2.log 2>&1; tail -1 /tmp/ts2.log; fi
  (cd /repo && bash $d/demo.sh >/tmp/ts3.log 2>&1); echo "$id: demo with bug rc=$? (want 1) $(tail -1 /tmp/ts3.log)"
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt run.py $p >/tmp/ts4.log 2>&1); echo "$id: check $p rc=$? (want 1)"; grep -E 'VIOLATION|failing|failed obl|undecided' /tmp/ts4.log | cut -c1-220 | head -5
  git -C /repo checkout -- .
  [ -z "$FAST" ] && bash /opt/vp/build.sh >/tmp/ts.log 2>&1
  (cd /repo && bash $d/demo.sh >/tmp/ts3.log 2>&1); echo "$id: demo clean rc=$? (want 0) $(tail -1 /tmp/ts3.log)"
done
