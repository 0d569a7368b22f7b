#!/bin/bash
# run_seeded.sh [ID...]: apply each planted bug to a scratch clone of /repo and run the check of its property.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/seedrun; git clone -q /repo /tmp/seedrun
  if ! git -C /tmp/seedrun apply /verif/seeded/$d/patch.diff; then echo "$d: patch does not apply"; continue; fi
  VERIF_REPO=/tmp/seedrun python3 check.py $p > /tmp/seedrun.out 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -c ^VIOLATION /tmp/seedrun.out) $(tail -1 /tmp/seedrun.out) | $(grep -m1 -A1 ^VIOLATION /tmp/seedrun.out | tail -1 | cut -c1-150)"
done
rm -rf /tmp/seedrun
