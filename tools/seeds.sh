#!/bin/bash
# tools/seeds.sh [id...]   : each seeded bug in a scratch copy of /repo, checked by its property's quick check
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  D=$(mktemp -d /tmp/seed.XXXX); cp -a /repo $D/repo
  git -C $D/repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d DOES NOT APPLY"; rm -rf "$D"; continue; }
  [ -f seeded/$d/demo.sh ] && (cd $D/repo && bash /verif/seeded/$d/demo.sh >/dev/null 2>&1 && echo "$d DEMO PASSES WITH PATCH")
  (cd /repo && bash /verif/seeded/$d/demo.sh >/dev/null 2>&1 || echo "$d DEMO FAILS WITHOUT PATCH")
  o=$(VERIF_REPO=$D/repo ./check $p 2>&1); rc=$?
  v=$(echo "$o" | grep -c "^VIOLATION property=$p")
  if [ $rc = 1 ] && [ $v -gt 0 ]; then echo "$d $p caught ($v)"; else echo "$d $p MISSED rc=$rc $(echo "$o" | tail -1)"; fi
  rm -rf "$D"
done
