#!/bin/bash
# runseeds.sh [quick|thorough] [ID...]: run each planted bug's check against a scratch copy of /repo.
T=${1:-quick}; shift
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/seedrun; cp -a /repo /tmp/seedrun
  if ! git -C /tmp/seedrun apply /verif/seeded/$d/patch.diff; then echo "$d: patch does not apply"; continue; fi
  s=$(date +%s)
  out=$(timeout 880 bash check.sh $p $T -repo /tmp/seedrun 2>&1); rc=$?
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ]; then echo "$d: $p caught (${e}s) $(echo "$out" | grep -m1 VIOLATION)"; else echo "$d: $p MISSED rc=$rc (${e}s)"; fi
done
rm -rf /tmp/seedrun
git -C /verif checkout -q -- replays 2>/dev/null
