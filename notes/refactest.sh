#!/bin/bash
# refactest.sh MODE...: every check on a tree rewritten without changing behaviour
R=${R:-/tmp/wt}; V=${V:-/verif}
for m in "$@"; do
  git -C $R checkout -q -- .
  node $V/notes/refactor.mjs $m $R || continue
  [ -n "$DIFF" ] && continue
  for p in ${PROPS:-$(ls $V/props | grep '^P')}; do
    o=$(cd $V && VF_REPO=$R VERIF_SEED=1 timeout 900 node vf/runner.mjs $p 2>&1); c=$?
    [ $c = 0 ] || { echo "$m $p exit $c"; echo "$o" | grep -v "^VIOLATION\|^not appl" | cut -c1-300 | head -6; }
  done
done
git -C $R checkout -q -- .
