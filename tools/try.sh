#!/bin/bash
# bash tools/try.sh <seed id>... : apply each planted change to /repo, run its property's check, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  timeout 900 bash /verif/run.sh check $p > /tmp/try.$id.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(grep -c VIOLATION /tmp/try.$id.log) violations, $(tail -1 /tmp/try.$id.log)"
done
