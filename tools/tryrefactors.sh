#!/bin/bash
# tryrefactors.sh DIR [NAME...]: runs the checks named in the first line of refactors/NAME.diff with the
# refactoring applied, on copies of /repo and /verif in DIR, in a mount namespace of its own
d=$1; shift
[ -e $d ] && { echo "$d exists"; exit 1; }
mkdir -p $d; cp -a /repo /verif $d/
export d
unshare -m bash -s "$@" <<'N'
mount --bind $d/repo /repo && mount --bind $d/verif /verif || exit 1
cd /verif
for n in ${@:-$(ls refactors | sed 's/.diff$//')}; do
  git -C /repo checkout -q -- .
  tail -n +2 refactors/$n.diff | git -C /repo apply - || { echo "$n: does not apply"; continue; }
  for p in $(head -1 refactors/$n.diff | tr -d '#'); do
    VERIF_SEED=1 timeout 900 python3 check.py $p > $d/try.log 2>&1; rc=$?
    echo "$n $p rc=$rc $(grep -c '^failed' $d/try.log) refuted, [$(grep -E '^(undecided|vacuous|error|failed) ' $d/try.log | awk '{print $1":"$2" "$3}' | tr '\n' ' ')] $(grep VIOLATION $d/try.log) $(grep -oE 'in [0-9.]+s$' $d/try.log)"
  done
done
git -C /repo checkout -q -- .
N
