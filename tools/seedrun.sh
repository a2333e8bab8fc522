#!/bin/bash
# confirms planted bugs against /repo: stable tests pass, demo clean/patched, and what the property's check says. usage: seedrun.sh id...
cd /verif
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); l="$id $p"
  t=$(mktemp -d); cp $d/demo.* $t/
  (cd /repo && bash $t/demo.sh >$t/clean.log 2>&1); l="$l clean=$?"
  git -C /repo apply $d/patch.diff || { echo "$l DOES NOT APPLY"; rm -rf "$t"; continue; }
  bash /opt/vp/test.sh $t/out.json >$t/test.log 2>&1
  l="$l tests=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$t/out.json'))
s=b.get('passed') or b.get('stable') or b.get('tests') or b
s=set(s) if isinstance(s,list) else set(s)
m=sorted(s-set(o['passed'])); print('pass' if not m else 'FAIL:'+';'.join(m)[:150])
PY
)"
  (cd /repo && bash $t/demo.sh >$t/bug.log 2>&1); l="$l patched=$?"
  for c in ${CHECKS:-$p}; do s=$(date +%s); ./check $c >$t/check.log 2>&1; rc=$?; l="$l $c=$rc($(( $(date +%s)-s ))s)"; grep -m1 '::' $t/check.log | cut -c1-160 > $t/first; [ $rc = 2 ] && tail -5 $t/check.log; done
  git -C /repo checkout -- .
  echo "$l"; sed 's/^/      /' $t/first; grep -h error $t/clean.log | head -3
  rm -rf "$t"
done
