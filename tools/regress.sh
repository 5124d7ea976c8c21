#!/bin/bash
# every contract module on /repo; prints the obligations that are not discharged
cd ${VR:-/verif}; mkdir -p /tmp/w
for p in ${@:-$(ls contracts | grep '^C' | sed 's/.py//')}; do
  s=$(date +%s)
  PYVC_V=1 timeout 900 python3-vt -m pyvc.run $p /repo quick 1 /tmp/w/$p.json > /tmp/w/$p.log 2>&1
  echo "$p: $(grep -c ' discharged ' /tmp/w/$p.log) discharged, $(( $(date +%s) - s )) s"
  grep -E '^ *(undecided|refuted)' /tmp/w/$p.log | cut -c1-300 | head -5
done
