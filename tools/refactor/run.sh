#!/bin/bash
# run.sh SECS [DIFF...]: applies each behaviour-preserving edit (default: all next to
# this file) to a scratch copy of /repo, builds the simulator against that copy and
# runs every scenario and profile for SECS seconds.  Any violation printed is a false alarm.
here=$(cd "$(dirname "$0")" && pwd); secs=${1:-10}; shift
S=${SCRATCH:-/tmp/fizyr-refactor}; mkdir -p $S
rm -rf $S/repo $S/sim; mkdir -p $S/repo
(cd /repo && git archive HEAD) | tar xf - -C $S/repo
cp -a /verif/sim $S/sim
sed -i "s#\"/repo#\"$S/repo#" $S/sim/harness/Cargo.toml
plans=$(grep -oE '\("[a-z]+", "[a-z]+"' /verif/sim/harness/src/plan.rs | tr -d '(", ' | sort -u | sed -E 's/^(duo|raw|hub|typed|paths|soak|wire)/\1:/')
[ $# = 0 ] && set -- $here/*.diff
for d in "$@"; do
	echo "== $(basename $d .diff)"
	patch -s -p1 -d $S/repo < $d || { echo "DOES NOT APPLY"; continue; }
	if (cd $S/sim/harness && CARGO_TARGET_DIR=$S/target RUSTC_WRAPPER= cargo build --offline --release --locked -q 2>$S/build.log); then
		echo "$plans" | xargs -P 8 -I{} sh -c 's={}; SIM_SCRATCH=$(mktemp -d -p '$S') timeout 300 '$S'/target/release/harness survey ${s%%:*} ${s##*:} '$secs' '${BASE:-1}' 2>/dev/null > '$S'/out.{} || echo "{}: DIED"; grep -E "^ *[0-9]+x|^   *seed" '$S'/out.{} | cut -c1-300 | sed "s/^/{} /"'
	else
		echo "DOES NOT BUILD"; grep -E "^error" -A8 $S/build.log | head -30
	fi
	patch -s -R -p1 -d $S/repo < $d
	rm -rf $S/tmp.*
done
[ -n "$KEEP" ] || rm -rf $S
