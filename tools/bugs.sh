#!/bin/bash
# usage: bugs.sh [ID ...]: run the check of each seeded bug's property on a patched scratch copy, four at a time
one() {
  id=$1; d=$(mktemp -d /tmp/bugXXXX); cp -a /repo $d/repo; cp -a /verif/seeded/$id/patch.diff $d/
  (cd $d/repo && git apply ../patch.diff) || { echo "$id patch does not apply"; rm -rf $d; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp -a /verif $d/verif
  out=$(cd $d/verif && VERIF_SEED=1 VROOT=$d/repo timeout 900 python3-vt check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc | $(echo "$out" | grep -a VIOLATION | head -1 | cut -c1-90) | $(echo "$out" | grep -a 'discharged' | tail -1 | cut -c1-160)"
  rm -rf $d
}
export -f one
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
printf '%s\n' $ids | xargs -P 4 -I{} bash -c 'one {}'
