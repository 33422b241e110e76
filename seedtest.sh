#!/bin/bash
# apply each planted bug to a scratch copy of /repo and run its property's check
# usage: seedtest.sh [id...]
cd "$(dirname "$0")"
ids=${*:-$(ls seeded)}
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  tmp=$(mktemp -d); cp -a /repo/src $tmp/src
  (cd $tmp && git init -q . && git apply --include='src/*' /verif/seeded/$id/patch.diff) || echo "PATCH FAILS $id"
  s=$(date +%s)
  out=$(VF_REPO=$tmp VF_EVIDENCE=$tmp ./run.py $prop 2>&1); rc=$?
  echo "== $id $prop exit $rc $(( $(date +%s) - s ))s"; echo "$out" | grep -v "^P[0-9]" | cut -c1-220 | head -4
  rm -rf "$tmp"
done
