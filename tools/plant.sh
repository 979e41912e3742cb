#!/bin/bash
# plant.sh ID: /tmp/pb/repo (scratch copy of /repo) holds a change, /verif/seeded/ID
# holds main.rs and meta.json.  Confirms the change and the demonstration and
# stores the patch; the scratch copy is restored either way.
id=$1; d=/verif/seeded/$id; S=/tmp/pb/repo
cd $S || exit 1
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
[ -f $d/raw.rs ] || { grep -q 'mod raw' $d/main.rs && cp /verif/tools/demo_raw.rs $d/raw.rs; }
git diff > /tmp/pb/patch.diff
[ -s /tmp/pb/patch.diff ] || { echo "no change"; exit 1; }
ok=1
export CARGO_TARGET_DIR=/tmp/pb/target
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/pb/target RUSTFLAGS=-Awarnings
timeout 600 cargo test --workspace --all-features --offline -q > /tmp/pb/test.log 2>&1 || { echo "TESTS FAIL"; grep -E "^error|panicked|FAILED|failed" -A6 /tmp/pb/test.log | head -20; ok=0; }
unset CARGO_TARGET_DIR RUSTFLAGS
if [ $ok = 1 ]; then
	(cd $S && timeout 200 bash $d/demo.sh > /tmp/pb/demo_bad.log 2>&1) && { echo "DEMO PASSES WITH THE CHANGE"; ok=0; }
	grep -qE "^error" /tmp/pb/demo_bad.log && { echo "DEMO DOES NOT BUILD"; grep -E "^error" -A6 /tmp/pb/demo_bad.log; ok=0; }
	(cd ${GOOD:-/repo} && timeout 200 bash $d/demo.sh > /tmp/pb/demo_good.log 2>&1) || { echo "DEMO FAILS WITHOUT THE CHANGE"; tail -5 /tmp/pb/demo_good.log; ok=0; }
fi
if [ $ok = 1 ]; then cp /tmp/pb/patch.diff $d/patch.diff; echo "$id planted: $(grep -E 'panicked|assert|Error|waiting' -A1 /tmp/pb/demo_bad.log | head -3 | tr '\n' ' ')"; git checkout -q -- .; else git diff > /tmp/pb/rejected-$id.diff; git checkout -q -- .; fi
