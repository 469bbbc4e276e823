#!/bin/bash
# try.sh SEEDED-ID...: runs the property's check against the planted bug and undoes it
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 /verif/check.py $p > /tmp/try.$b.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b: $p exit $rc: $(grep -m1 -E '^(VIOLATION|CHECK-ERROR)' /tmp/try.$b.log) $(grep -m1 '^ident' /tmp/try.$b.log | cut -c1-160)"
done
