#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo (default /tmp/wt) and run the property's check on them
W=${W:-/tmp/wt}
[ -d $W ] || cp -a /repo $W
sed "s#/repo#$W#g" /opt/vp/build.sh > $W.build.sh; sed "s#/repo#$W#g" /opt/vp/test.sh > $W.test.sh
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C $W checkout -q -- . ; git -C $W reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || { git -C $W fetch -q /repo && git -C $W reset -q --hard FETCH_HEAD; }
  d=$(mktemp -d); cp $s/* $d/; rm -f $d/*.diff $d/meta.json
  (cd $W && timeout 300 bash $d/demo.sh >$d/o1 2>&1); r0=$?
  git -C $W apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  (cd $W && timeout 300 bash $d/demo.sh >$d/o2 2>&1); r1=$?
  b=skip; t=skip
  if [ -z "$FAST" ]; then bash $W.build.sh > $W.build.log 2>&1; b=$?
  bash $W.test.sh $W.out.json > $W.test.log 2>&1
  t=$(python3 - $W.out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    return set(x.get("passed") or x.get("stable") or [])
want=set(b.get('passed') or b.get('stable') or b.get('tests') or []); got={x.split("packages/",1)[-1] for x in passed(o)}; want={x.split("packages/",1)[-1] for x in want}
print(len(want-got))
P
); fi
  o=$(cd /verif && VF_REPO=$W VERIF_SEED=1 node vf/runner.mjs $prop --tier quick 2>&1); c=$?
  echo "$id: demo $r0/$r1 build $b missing-tests $t check-exit $c $(echo "$o" | grep -c "VIOLATION property=$prop") $(echo "$o" | grep VIOLATION | head -1 | grep -o no-failing.*)"
  [ $r0 = 0 ] || tail -5 $d/o1; [ $r1 != 0 ] || tail -5 $d/o2
  [ $c = 1 ] || echo "$o" | tail -3
  rm -r $d; git -C $W checkout -q -- .
done
