#!/bin/bash
# plant.sh ID...: for each seeded bug: applies, builds, tests, demo on both trees, and the check of its property
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  if [ -z "$SKIP" ]; then
    bash /opt/vp/build.sh >/tmp/p/b0 2>&1
    (cd /repo && bash $d/demo.sh >/tmp/p/$id.d0 2>&1); d0=$?
  fi
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIP" ]; then
    bash /opt/vp/build.sh >/tmp/p/b1 2>&1 || { echo "$id: build fails"; tail -5 /tmp/p/b1; }
    bash /opt/vp/test.sh /tmp/p/$id.json >/tmp/p/$id.t 2>&1
    nf=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/p/$id.json'))
s=b.get('stable') or b.get('passed') or b
print(len(set(s)-set(d['passed'])), sorted(set(s)-set(d['passed']))[:3])")
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/p/$id.d1 2>&1); d1=$?
  fi
  python3 check.py $prop quick >/tmp/p/$id.c 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id [$prop] demo: clean=$d0 bug=$d1 tests-broken=$nf check=$rc $(grep VIOLATION /tmp/p/$id.c | sed 's/.*replay=//' | xargs -n1 basename 2>/dev/null | tr '\n' ' ')"
done
[ -z "$SKIP" ] && bash /opt/vp/build.sh >/tmp/p/b0 2>&1
