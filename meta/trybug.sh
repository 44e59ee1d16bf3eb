#!/bin/bash
# trybug.sh ID [notest|nocheck]...: confirms a seeded bug in private copies and runs its property's check
id=$1; d=/verif/seeded/$id; w=/tmp/bug.$id; o=" ${*:2} "
rm -rf "$w"; mkdir -p $w/out; cp -a /repo $w/repo; cp -a /verif/build $w/build
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
N="/verif/meta/ns.sh $w"
(cd /repo && timeout 300 bash $d/demo.sh > $w/demo0.log 2>&1); a=$?
git -C $w/repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
$N bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo "$id: does not build"; tail -5 $w/build.log; exit 1; }
$N bash -c "cd /repo && timeout 300 bash $d/demo.sh" > $w/demo1.log 2>&1; b=$?
t=skipped
if [[ $o != *notest* ]]; then
  $N bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
  t=$(python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('$w/t.json'))['passed']); m=[x for x in s if x not in p]
print('PASS' if not m else 'FAIL %s' % m[:4])")
fi
c=skipped
if [[ $o != *nocheck* ]]; then
  VERIF_OUT=$w/out VERIF_SEED=1 VERIF_TIER=quick $N timeout 900 python3-vt checks/$(echo $p | tr A-Z a-z).py > $w/check.log 2>&1; r=$?
  c="exit $r $(grep -a '^VIOLATION' $w/check.log | head -1 | cut -c1-60)"
fi
echo "$id ($p): demo unchanged=$a patched=$b [$(tail -1 $w/demo1.log | cut -c1-150)]; tests $t; check $c"
[[ $o == *keep* ]] || rm -rf $w
