#!/bin/bash
# seedtest.sh ID...: confirm each planted bug (builds, stable tests pass, demo ok/fails) and run the check of its property.
for id in "$@"; do
  d=/verif/seeded/$id; cd ${SEED_REPO:-/repo}
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  T=$(mktemp -d); cp $d/* $T/
  bash $T/demo.sh >$T/clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash ${SEED_VP:-/opt/vp}/build.sh >$T/build.log 2>&1; b=$?
  bash ${SEED_VP:-/opt/vp}/test.sh $T/out.json >$T/test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$T/out.json'))
st=b.get('passed') or b.get('stable') or b
print(len(set(st)-set(o['passed'])), list(set(st)-set(o['passed']))[:3])")
  bash $T/demo.sh >$T/bad.log 2>&1; p=$?
  r=""
  if [ -f /verif/checks/${prop,,}.py ]; then
    (cd /verif; VP_REPO=${SEED_REPO:-/repo} timeout 900 python3 check.py $prop quick >$T/chk.log 2>&1; echo $? >$T/chk.rc)
    r="check rc=$(cat $T/chk.rc) $(grep -m1 VIOLATION $T/chk.log)"
  fi
  git checkout -- .
  echo "$id [$prop] clean=$c build=$b missing_tests=$t patched=$p $r"
  [ $c = 0 ] || tail -5 $T/clean.log
  [ $b = 0 ] || tail -5 $T/build.log
  rm -rf $T
done
