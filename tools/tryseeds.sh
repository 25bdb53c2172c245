#!/bin/bash
# tryseeds.sh [ID...]: applies each planted change to /repo, runs the check of its property, undoes it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(jq -r .property seeded/$id/meta.json)
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 python3 check.py $p > /tmp/try.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^failed' /tmp/try.log) refuted, $(grep -cE '^(undecided|vacuous|error) ' /tmp/try.log) undecided; $(grep VIOLATION /tmp/try.log | sed 's/.*replays.[A-Z0-9]*.txt//') [$(grep -E '^failed' /tmp/try.log | awk '{print $3}' | tr '\n' ' ')] $(grep -oE 'in [0-9.]+s$' /tmp/try.log)"
done
