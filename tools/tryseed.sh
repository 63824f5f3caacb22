#!/bin/bash
# tryseed.sh ID...: run the check of each planted bug's property on a patched copy (PV_REPO)
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=/tmp/tryseed_$id
  rm -rf $w; cp -a /repo $w; git -C $w apply $d/patch.diff || { echo "$id: patch fails"; continue; }
  s=$(date +%s)
  (cd /verif; PV_REPO=$w ./check.sh $p > /tmp/tryseed_$id.log 2>&1; echo "rc=$?" >> /tmp/tryseed_$id.log)
  echo "$id $p $(( $(date +%s) - s ))s $(tail -1 /tmp/tryseed_$id.log) $(grep -a VIOLATION /tmp/tryseed_$id.log | head -1 | cut -c1-200)"
  rm -rf $w
done
