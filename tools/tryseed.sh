#!/bin/bash
# tryseed.sh ID...: applies each planted bug to a scratch worktree of /repo and runs the quick check of its property on it.
v=$(cd "$(dirname "$0")/.." && pwd); w=/tmp/tryrepo
. /opt/vp/env.sh 2>/dev/null
cd "$v" && ./check.sh setup || exit 2
[ -d $w ] || git -C /repo worktree add -q --detach $w HEAD
for id in "$@"; do
  p=$v/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
  git -C $w checkout -q -- . ; git -C $w clean -fdq; git -C $w checkout -q --detach "$(git -C /repo rev-parse HEAD)"
  git -C $w apply $p/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_TIER=quick bin/verif check -repo $w -property $prop 2>&1); rc=$?
  echo "$id $prop rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep VIOLATION | head -1)"
  [ $rc -ge 2 ] && echo "$out" | tail -5
done
git -C $w checkout -q -- .
