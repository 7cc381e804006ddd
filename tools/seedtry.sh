#!/bin/bash
# usage: seedtry.sh ID...   Verifies planted bugs: applies, builds, tests pass, demo 0/nonzero, checks of all given or own property.
# CHECKS="C01 C02" overrides the properties run.
cd /repo || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  out="$id($prop):"
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  if [ -z "$NODEMO" ]; then
    (cd /repo && bash "$d/demo.sh" >/tmp/demo0.log 2>&1); r=$?
    [ $r = 0 ] && out="$out demo-clean-ok" || out="$out DEMO-CLEAN-FAILS($r)"
  fi
  if ! git apply "$d/patch.diff"; then echo "$out PATCH-DOES-NOT-APPLY"; continue; fi
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
    miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','passing','stable','tests'):
            if k in x: return names(x[k])
        return set(k for k,v in x.items() if v in (True,'pass','passed','ok'))
    return set(map(str,[ (t.get('name') if isinstance(t,dict) else t) for t in x]))
print(len(names(b)-names(o)))
P
)
    [ "$miss" = 0 ] && out="$out tests-ok" || out="$out TESTS-FAIL($miss)"
    (cd /repo && bash "$d/demo.sh" >/tmp/demo1.log 2>&1); r=$?
    [ $r != 0 ] && [ $r != 2 ] && out="$out demo-detects" || out="$out DEMO-MISSES($r)"
  fi
  for c in ${CHECKS:-$prop}; do
    /verif/check.sh $c >/tmp/seedcheck.$c.log 2>&1; r=$?
    if [ $r = 1 ] && grep -q "^VIOLATION property=$c" /tmp/seedcheck.$c.log; then out="$out $c:CAUGHT"; else out="$out $c:missed($r)"; fi
  done
  git -C /repo checkout -- .
  echo "$out"
done
