#!/bin/bash
# author helper: bugs.sh [ID...] -- run the owning check against each planted bug, in a copy of /repo
cd /verif/seeded; ids="${*:-$(ls)}"
R=/tmp/w/bugrepo; mkdir -p /tmp/w; [ -d $R ] || git -C /repo worktree list >/dev/null && { [ -d $R ] || git clone -q /repo $R; }
git -C $R fetch -q origin && git -C $R reset -q --hard origin/main
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C $R checkout -q -- . ; git -C $R apply /verif/seeded/$id/patch.diff || { echo "$id: NO APPLY"; continue; }
  out=$(cd /verif && REPO=$R VERIF_BUILD=/tmp/w/bugbuild VERIF_SEED=1 timeout 900 python3-vt check.py $p 2>&1); rc=$?
  echo "$id ($p): rc=$rc $(echo "$out" | grep -E '^VIOLATION|holds' | head -1 | cut -c1-150)"
  echo "$out" | grep -E 'failed obl|not proved' | head -4 | cut -c1-220
done
git -C $R checkout -q -- .
