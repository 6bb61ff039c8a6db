#!/bin/bash
# author helper: seed.sh ID  -- capture the diff of the scratch copy /tmp/w/seed as seeded/ID/patch.diff and confirm it
# (builds, stable tests pass, demo fails with it and passes without)
set -u
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/w/seed diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
(cd /tmp/w/seed && cargo test --offline --workspace --quiet >/tmp/w/seedtest.log 2>&1) && echo "tests pass" || { echo "TESTS FAIL"; tail -5 /tmp/w/seedtest.log; }
(cd /tmp/w/seed && bash $d/demo.sh >/tmp/w/demo1.log 2>&1); a=$?
git -C /tmp/w/seed checkout -q -- .
(cd /tmp/w/seed && bash $d/demo.sh >/tmp/w/demo0.log 2>&1); b=$?
echo "$id: with patch exit $a (want !=0), without exit $b (want 0)"
tail -3 /tmp/w/demo1.log
