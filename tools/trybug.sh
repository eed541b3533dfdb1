#!/bin/bash
# usage: trybug.sh ID... : demo on clean tree, then with the patch: tests, demo, the property's check
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
  bash $d/demo.sh >/dev/null 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/trybug.json 2>/dev/null | tail -1)
  bash $d/demo.sh >/dev/null 2>&1; p=$?
  o=$(cd /verif && bin/check $prop 2>/tmp/trybug.err); r=$?
  git checkout -q -- .
  python3 /verif/tools/record_bug.py "$id" "$prop" "$r" "$(grep -m1 'rejected record' /tmp/trybug.err)"
  echo "$id $prop: demo clean=$c patched=$p build=$b tests=[$t] check=$r $(echo "$o" | grep -c '^VIOLATION') $(grep -m1 'rejected record' /tmp/trybug.err)"
done
