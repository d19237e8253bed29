#!/bin/bash
# tryseed.sh ID...: does the property's check catch the planted change? (development aid)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  w=$(mktemp -d /tmp/try-XXXXXX); git clone -q /repo $w/repo
  git -C $w/repo apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  mkdir -p $w/ev; BANT_EVIDENCE=$w/ev BANT_REPO=$w/repo python3 $V/run.py $p quick > $w/log 2>&1; rc=$?
  if grep -q "^VIOLATION property=$p " $w/log && [ $rc = 1 ]; then echo "$id ($p) CAUGHT: $(grep -v '^KNOWN\|^VIOL\|paths' $w/log | head -1 | cut -c1-200)"; else echo "$id ($p) MISSED rc=$rc: $(tail -3 $w/log | cut -c1-600)"; fi
  rm -rf "$w"
done
