#!/bin/bash
# applies each named seeded bug to /repo, runs the stable tests and its property's check, and undoes it
cd /verif
for b in "$@"; do
  s=/verif/seeded/$b
  git -C /repo apply $s/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -n "$NOTEST" ] || bash /tmp/w/t.sh
  timeout 900 python3-vt -m rxv.check $p quick > /tmp/w/o/seed-$b.txt 2>&1; echo "$b $p rc $?"
  grep -h "VIOL\|failed obl\|not proved\|Error" /tmp/w/o/seed-$b.txt | cut -c1-200 | head -6
  git -C /repo checkout -q -- .
done
