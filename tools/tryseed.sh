#!/bin/bash
# applies each named planted change to /repo, runs its property's check, undoes it
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  echo "== $s ($p)"; python3-vt check.py $p > /tmp/ts_$s.log 2>&1; echo "exit $?"; tail -3 /tmp/ts_$s.log
  git -C /repo checkout -- .
done
