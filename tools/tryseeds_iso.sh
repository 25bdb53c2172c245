#!/bin/bash
# tryseeds_iso.sh DIR [ID...]: tryseeds.sh on copies of /repo and /verif in DIR (a mount namespace of its own)
d=$1; shift
[ -e $d ] && { echo "$d exists"; exit 1; }
mkdir -p $d; cp -a /repo /verif $d/
export d
unshare -m bash -s "$@" <<'N'
mount --bind $d/repo /repo && mount --bind $d/verif /verif || exit 1
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(jq -r .property seeded/$id/meta.json)
  git -C /repo checkout -q -- .
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 timeout 900 python3 check.py $p > $d/try.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^failed' $d/try.log) refuted, $(grep -cE '^(undecided|vacuous|error) ' $d/try.log) undecided; $(grep VIOLATION $d/try.log | sed 's/.*replays.[A-Z0-9]*.txt//') [$(grep -E '^failed' $d/try.log | awk '{print $3}' | tr '\n' ' ')] $(grep -oE 'in [0-9.]+s$' $d/try.log)"
done
git -C /repo checkout -q -- .
N
