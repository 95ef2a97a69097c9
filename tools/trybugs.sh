#!/bin/bash
# trybugs.sh ID...: apply each planted bug to /repo, build, demo, check; always undone. CHECK=0 skips the check
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh > /tmp/tb.log 2>&1; then b=ok; else b=FAILS; fi
  (timeout 300 bash $s/demo.sh > /tmp/tb.demo 2>&1); d=$?
  c=-; if [ "$CHECK" != 0 ]; then (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/run.py $prop > /tmp/tb.chk 2>&1); c=$?; fi
  echo "$id build $b demo $d check $c $(grep -h VIOLATION /tmp/tb.chk 2>/dev/null | head -2 | cut -c1-200)"
  [ $d = 0 ] && tail -5 /tmp/tb.demo
  git checkout -q -- .
done
bash /opt/vp/build.sh > /tmp/tb.log 2>&1
for id in "$@"; do (timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/tb.demo 2>&1) && echo "$id clean ok" || { echo "$id clean FAILS"; tail -5 /tmp/tb.demo; }; done
