#!/bin/bash
# trybugs.sh [id...]: run the check of each planted bug's property against a scratch copy with the bug applied
cd /verif; ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  rm -rf /tmp/plant/try; mkdir -p /tmp/plant; git -C /repo worktree list >/dev/null; mkdir /tmp/plant/try; git -C /repo archive HEAD Vc src | tar -x -C /tmp/plant/try
  (cd /tmp/plant/try && git init -q . 2>/dev/null; git apply /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  cp evidence/$p.json /tmp/plant/ev.json 2>/dev/null
  out=$(VC_REPO=/tmp/plant/try timeout 900 python3 check.py $p --tier quick --seed ${SEED:-1} 2>&1); rc=$?
  [ -f /tmp/plant/ev.json ] && mv /tmp/plant/ev.json evidence/$p.json
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
