#!/bin/bash
# seed_test.sh <id>...   applies each planted bug to /repo, builds, runs the tests, its demo and its check, and undoes it
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git checkout -q -- .
  bash $d/demo.sh > /tmp/demo.out 2>&1; base=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: does not build"; tail -20 /tmp/seed_build.log; continue; }
  bash /opt/vp/test.sh /tmp/seed_out.json > /dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def names(x): return x if isinstance(x,list) else list(x)
bp=set(names(b.get('passed') or b.get('stable') or b.get('tests') or b)); op=set(names(o.get('passed') or []))
print(len(bp-op), 'lost of', len(bp))
P
)
  bash $d/demo.sh > /tmp/demo2.out 2>&1; bug=$?
  res=""
  for p in $prop ${EXTRA:-}; do
    bash /verif/check.sh $p > /tmp/check.out 2>&1; rc=$?
    res="$res $p:rc=$rc:$(grep -c '^VIOLATION property='$p /tmp/check.out)"
  done
  echo "$id: tests $t; demo base=$base bug=$bug; checks$res; $(tail -1 /tmp/demo2.out | cut -c1-160)"
  git checkout -q -- .
done
