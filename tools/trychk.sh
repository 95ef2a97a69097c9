#!/bin/bash
# trychk.sh ID...: run the check of each planted bug against a scratch copy with the bug (no build, /repo is not touched)
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(mktemp -d /tmp/pbXXXXXX); git -C /repo archive HEAD | tar x -C $t; (cd $t && git init -q . && git apply $s/patch.diff) || echo "$id: does not apply"
  (cd /verif; PBAT_REPO=$t VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/run.py $prop > /tmp/tc.log 2>&1); c=$?
  echo "$id check $c $(grep -h VIOLATION /tmp/tc.log | grep -v no-failing | wc -l) with input, $(grep -h VIOLATION /tmp/tc.log | grep no-failing | wc -l) without: $(grep -h 'VIOLATION' /tmp/tc.log | head -1 | cut -c1-100)"
  rm -rf "$t"
done
