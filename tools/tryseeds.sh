#!/bin/bash
# tools/tryseeds.sh [id...]: apply each seed to a scratch copy and run its property's check there
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/tryseeds-scratch; cp -a /repo /tmp/tryseeds-scratch
  git -C /tmp/tryseeds-scratch apply "$PWD/seeded/$d/patch.diff" || echo "does not apply"
  o=$(PPS_EVIDENCE=/tmp/tryseeds-ev PPS_REPO=/tmp/tryseeds-scratch python3 -m pps.run $p --tier quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$o" | grep -A1 VIOLATION | sed -n 2p | cut -c1-230)"
  rm -rf /tmp/tryseeds-scratch
done
